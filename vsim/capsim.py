"""The capgen simulation: random worlds are given to the real generator, the
generated caps are compiled with scheme stubs and a scripted host, and seeded
histories of host calls run on them are compared with the reference."""
import difflib
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys

from . import capworld, constworld, style, tableref
from .capref import PHASES, PHNUM, STATES, Ref
from .core import HarnessError, REPO, Result, Sim, VERIF, digest, shrink_list

FFLAGS = ["-cpp", "-DCMD_ON", "-DCMD_LEVEL=3", "-DCMD_NIL=0",
          "-ffree-line-length-none", "-O0", "-frecursive",
          "-fcheck=bounds,do,mem,pointer", "-w"]
KCHECK = """
subroutine kcheck
  use iso_fortran_env, only: real64, real32
  use ccpp_kinds, only: kind_phys, kind_sp
  integer, parameter :: n = 1 / merge(1, 0, kind_phys == real64)
  integer, parameter :: m = 1 / merge(1, 0, kind_sp == real32)
end subroutine kcheck
"""
# (sources are compiled as one file; what one defines ends with it)
UNDEF = "".join(f"#undef {n}\n" for n in style.Conditions.NAMES)
KINDS = ["kind_phys=REAL64", "kind_sp=REAL32"]


# Features every world may have, and what each property stresses
BASE = {"units": 0.15, "flip": 0.2, "ddt": 0.3, "suites": 0.3,
        "subcycle": 0.25, "suitevars": 1.0, "debug": 0.25, "dimargs": 0.6,
        "samenames": 0.3, "distinct": 0.3, "slices": 0.08, "litdims": 0.06,
        "oddnames": 0.2, "badlocals": 0.08, "chars": 0.15, "boxes": 0.1,
        "boxes_own": 0.6, "explicit": 0.25, "sizes": 0.15}
# violations after which the history still means something
SOFT = ("widened-by-later-part",)

CONF = {
    "C01": {"feat": {"units": 0.3, "flip": 0.3, "samenames": 0.5,
                     "subcycle": 0.5, "suites": 0.5, "dimargs": 0.4,
                     "badlocals": 0.2, "oddnames": 0.4, "boxes": 0.2},
            "histories": 3, "runs": 200},
    "C02": {"feat": {"units": 0.05, "flip": 0.05, "subcycle": 0.1},
            "hist": {"illegal": 0.45, "fault": 0.1}, "histories": 24,
            "runs": 110},
    "C03": {"feat": {"subcycle": 0.9, "units": 0.05, "flip": 0.05},
            "hist": {"illegal": 0.05, "fault": 0.08}, "histories": 16,
            "runs": 130},
    "C04": {"feat": {"subcycle": 0.4, "suites": 0.2},
            "hist": {"illegal": 0.08, "fault": 0.7}, "histories": 20,
            "runs": 120},
    "C05": {"feat": {"units": 0.6, "flip": 0.6, "ddt": 0.5, "samenames": 0.6,
                     "kinds": 0.3, "slices": 0.2, "badlocals": 0.15},
            "hist": {"illegal": 0.03, "fault": 0.1}, "histories": 10,
            "runs": 150},
    "C06": {"feat": {"threads": 1.0, "units": 0.5, "flip": 0.4,
                     "suitevars": 2.0, "suites": 0.4, "subcycle": 0.4,
                     "active": 0.2, "kinds": 0.15, "ddt": 0.3, "boxes": 0.15},
            "hist": {"illegal": 0.1, "fault": 0.15, "par": 0.7,
                     "chunks": 0.9}, "histories": 14, "runs": 120},
    "C07": {"feat": {"suitevars": 3.0, "units": 0.2, "suites": 0.4,
                     "boxes": 0.3, "boxes_own": 0},
            # (what types own stays with the variables of a suite)
            "hist": {"illegal": 0.05, "fault": 0.1, "cyclic": 1.0},
            "histories": 12, "runs": 120},
    "C08": {"feat": {"active": 0.5, "optional": 0.35, "units": 0.3,
                     "flip": 0.2, "kinds": 0.2, "samenames": 0.3, "ddt": 0.3,
                     "debug": 0.25, "subcycle": 0.2, "suites": 0.2,
                     "suitevars": 1.0},
            "hist": {"illegal": 0.05, "fault": 0.1, "flags": 0.35},
            "histories": 12, "runs": 130},
    "C10": {"feat": {"ddt": 0.5, "suites": 0.6, "subcycle": 0.4,
                     "consts": 0.3},
            "hist": {"ask": 0.8}, "histories": 8, "runs": 120},
    "C09": {"feat": {"consts": 1.0, "sizes": 0.3, "units": 0.4, "flip": 0.35,
                     "suites": 0.5, "samenames": 0.4, "badlocals": 0.1},
            "hist": {"illegal": 0.05, "fault": 0.12}, "histories": 12,
            "runs": 120},
    "C11": {"feat": {"suites": 1.0, "suitevars": 2.0, "boxes": 0.3},
            "hist": {"illegal": 0.1, "fault": 0.15}, "histories": 14,
            "runs": 110},
    "C12": {"feat": {"debug": 1.0, "units": 0.3, "flip": 0.3,
                     "slices": 0.15, "litdims": 0.15},
            "hist": {"illegal": 0.05, "fault": 0.1, "odd": 0.5},
            "histories": 10, "runs": 120},
    "C13": {"feat": {"style": 1.0, "consts": 0.2, "deps": 0.3, "units": 0.3, "flip": 0.3,
                     "suites": 0.3, "subcycle": 0.3, "ddt": 0.4,
                     "optional": 0.15, "active": 0.1, "kinds": 0.15,
                     "slices": 0.1, "litdims": 0.1, "badlocals": 0.1},
            "hist": {"illegal": 0.05, "fault": 0.1}, "histories": 3,
            "runs": 150},
}


def limits():
    """Limits of every child"""
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, cwd, timeout=120, env=None, stdin=None):
    """Run a command; return (code, stdout, stderr)"""
    try:
        res = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, timeout=timeout, env=env,
                             input=stdin, preexec_fn=limits, check=False)
        return (res.returncode, res.stdout.decode("utf-8", "replace"),
                res.stderr.decode("utf-8", "replace"))
    except subprocess.TimeoutExpired as exc:
        return -24, (exc.stdout or b"").decode("utf-8", "replace"), "timeout"


def tool_env(hashseed="0"):
    """Environment of a framework tool"""
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    env["PYTHONPATH"] = os.pathsep.join(
        [os.path.join(REPO, "scripts"),
         os.path.join(REPO, "scripts", "parse_tools")])
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONWARNINGS"] = "ignore"
    return env


def kinds_of(w):
    """Ways to say the same kinds"""
    way = sum(len(s["name"]) for s in w["schemes"]) % 5
    return [KINDS, KINDS[1:], ["kind_sp=REAL64"] + KINDS, KINDS[::-1],
            [k.replace("=", " = ") for k in KINDS]][way]


def capgen_cmd(w, root="out", host="simhost.meta,host_data.meta",
               extra=()):
    """The capgen command line of a world"""
    cmd = [sys.executable, os.path.join(REPO, "scripts", "ccpp_capgen.py"),
           "--host-files", host,
           "--scheme-files", ",".join(
               (["simbox.meta"] if w.get("boxes") else []) +
               [s["name"] + ".meta" for s in w["schemes"]]),
           "--suites", ",".join(s["name"] + ".xml" for s in w["suites"]),
           "--host-name", "simhost", "--output-root", root]
    for k in kinds_of(w):
        cmd += ["--kind-type", k]
    if w.get("debug"):
        cmd.append("--debug")
    return cmd + style.directives(w.get("style")) + list(extra)


class CapSim(Sim):
    """Base of the checks which run generated caps"""

    components_real = [
        "scripts/ccpp_capgen.py and everything it imports (whole generator)",
        "generated host cap and suite caps (compiled with gfortran)",
        "src/ccpp_constituent_prop_mod.F90, src/ccpp_hash_table.F90, "
        "src/ccpp_hashable.F90"]
    components_stub = [
        "host model (fortran driver written by the simulator)",
        "physics schemes (stubs written by the simulator)",
        "threads (one runs at a time, switched by the seeded schedule)",
        "malloc/free (counting, poisoning)"]
    time_unit = "simulated host calls"
    rule = ("one run is one random world (host model, schemes, suites) given "
            "to the real generator, compiled, and driven by seeded histories "
            "of host calls with injected scheme errors and illegal calls; it "
            "counts when it produced a trace different from every other run's")
    measure = ("distinct (suite definitions, complete observed event log) "
               "pairs, one per history")
    assumptions = [
        "gfortran 13 at -O0 with bounds, pointer and do checks stands for the "
        "host's compiler",
        "worlds are drawn from the documented metadata features listed in "
        "DESIGN.md; scheme stubs read every input and write every output",
        "reals are compared with a relative tolerance of 2e-5"]
    histories = 12

    def __init__(self, prop, tier="quick"):
        super().__init__(prop, tier)
        conf = CONF.get(prop, CONF["C01"])
        self.feat = dict(BASE, **conf["feat"])
        self.hist = conf.get("hist", {})
        self.histories = conf.get("histories", 12)
        self.nruns = conf.get("runs", 100)

    def runs(self, tier):
        return self.nruns if tier == "quick" else self.nruns * 30

    def prepare(self):
        """Compile what every world shares"""
        self.shared = os.path.join(self.work, "shared")
        os.makedirs(self.shared)
        fdir = os.path.join(VERIF, "fortran")
        # the kinds module, as capgen writes it, comes with each world; the
        # library is compiled once with the same kinds
        with open(os.path.join(self.shared, "ccpp_kinds.F90"), "w") as fh:
            fh.write("module ccpp_kinds\n"
                     "  use, intrinsic :: iso_fortran_env, only: "
                     "kind_phys => real64, kind_sp => real32\n"
                     "  implicit none\n  private\n"
                     "  public :: kind_phys, kind_sp\nend module ccpp_kinds\n")
        srcs = ["ccpp_kinds.F90", os.path.join(fdir, "simcore.F90")]
        for name in ("simalloc.c", "simtask.c"):
            code, _, err = run(["gcc", "-c", "-O1", "-fno-builtin",
                                os.path.join(fdir, name)],
                               self.shared)
            if code:
                raise HarnessError(err)
        for src in srcs:
            code, _, err = run(["gfortran", "-c"] + FFLAGS + [src],
                               self.shared)
            if code:
                raise HarnessError(err)
        for name in ("ccpp_hashable", "ccpp_hash_table",
                     "ccpp_constituent_prop_mod"):
            code, _, err = run(["gfortran", "-c"] + FFLAGS +
                               [os.path.join(REPO, "src", name + ".F90")],
                               self.shared)
            if code:
                return [("library-does-not-compile", err[-2000:])]
        return None

    # ---- building
    def world(self, seed):
        """The world of a seed"""
        rng = random.Random(seed)
        return capworld.Gen(rng, self.feat).world()

    def build(self, w, where, keep_generated=None):
        """Write, generate and compile a world; None or (sig, text)"""
        os.makedirs(where, exist_ok=True)
        for name, text in capworld.render(w).items():
            with open(os.path.join(where, name), "w") as fh:
                fh.write(text)
        code, out, err = run(capgen_cmd(w), where, env=tool_env())
        if w.get("style"):
            bad = self.same_as_plain(w, where, code, out + err)
            if bad:
                return bad
        if code != 0:
            return ("rejected", "capgen refused consistent inputs (code "
                    f"{code}):\n{out[-600:]}\n{err[-1800:]}")
        gen = os.path.join(where, "out")
        caps = [f for f in sorted(os.listdir(gen)) if f.endswith(".F90")
                and f != "ccpp_kinds.F90"]
        suites = [f for f in caps if f != "simhost_ccpp_cap.F90"]
        if "simhost_ccpp_cap.F90" not in caps or \
                len(suites) != len(w["suites"]):
            return ("missing-output", f"capgen wrote only {caps}")
        parts = [s["name"] + ".F90" for s in w["schemes"]] + \
            ["host_data.F90"] + ["out/" + s for s in suites] + \
            ["out/simhost_ccpp_cap.F90"] + \
            (["simaux.F90"] if w.get("consts") else []) + ["simhost.F90"]
        if self.prop == "C01":
            # (compilers need not take longer lines)
            for name in caps + ["ccpp_kinds.F90"]:
                with open(os.path.join(gen, name)) as fh:
                    for num, line in enumerate(fh, 1):
                        if len(line.rstrip("\n")) > 132:
                            return ("long-line", f"{name}:{num} has more "
                                    "than the 132 columns of Fortran:\n" +
                                    line)
        # the generated kinds file must compile and offer the same kinds
        with open(os.path.join(gen, "ccpp_kinds.F90")) as src, \
                open(os.path.join(where, "kcheck.F90"), "w") as fh:
            fh.write(src.read() + KCHECK)
        code, _, err = run(["gfortran", "-c", "-fsyntax-only", "-J", ".",
                            "kcheck.F90"], where)
        if code:
            return ("compile", "ccpp_kinds.F90:\n" + err[-2000:])
        os.unlink(os.path.join(where, "ccpp_kinds.mod"))
        fixed = [s["name"] + ".F" for s in w["schemes"]
                 if os.path.exists(os.path.join(where, s["name"] + ".F"))]
        parts = [p for p in parts if p[:-2] not in fixed]
        nphys = len(w["schemes"]) - len(fixed) + 1
        with open(os.path.join(where, "all.F90"), "w") as fh:
            for p in parts:
                with open(os.path.join(where, p)) as src:
                    fh.write(f"# 1 \"{p}\"\n" + src.read() + "\n" +
                             UNDEF)
        objs = [os.path.join(self.shared, o) for o in
                ("simalloc.o", "simtask.o", "ccpp_kinds.o", "simcore.o",
                 "ccpp_hashable.o", "ccpp_hash_table.o",
                 "ccpp_constituent_prop_mod.o")]
        fflags = FFLAGS
        if any(v["active"] for v in w["host"]):
            # (the host cap passes sections of arrays which may be
            # unallocated to absent dummies; compilers accept that)
            fflags = [f.replace("bounds,", "") for f in FFLAGS]
        srcs = ["all.F90"]
        if w.get("boxes"):
            code, _, err = run(["gfortran", "-c"] + fflags +
                               ["-I", self.shared, "simbox.F90"], where)
            if code:
                raise HarnessError("simbox.F90 is not valid:\n" +
                                   err[-1500:])
            objs = ["simbox.o"] + objs
        if fixed:
            with open(os.path.join(where, "fixed.F"), "w") as fh:
                for p in fixed:
                    with open(os.path.join(where, p)) as src:
                        fh.write(f"# 1 \"{p}\"\n" + src.read() + "\n" +
                             UNDEF)
            code, _, err = run(["gfortran", "-c"] + fflags +
                               ["-I", self.shared, "fixed.F"], where)
            if code:
                raise HarnessError("restyled source is not valid:\n" +
                                   err[-1500:])
            objs = ["fixed.o"] + objs
        if w.get("threads"):
            # caps apart, with every memory access a yield point
            srcs = []
            for name, first, last, opts in (
                    ("phys", 0, nphys, []),
                    ("caps", nphys, -1,
                     ["-fsanitize=thread"]),
                    ("host", -1, None, [])):
                with open(os.path.join(where, name + ".F90"), "w") as fh:
                    for part in parts[first:last]:
                        with open(os.path.join(where, part)) as src:
                            fh.write(f"# 1 \"{part}\"\n" + src.read() + "\n")
                code, _, err = run(["gfortran", "-c", "-fopenmp"] + fflags +
                                   opts + ["-I", self.shared, name + ".F90"],
                                   where)
                if code:
                    return ("compile", "generated code does not compile with "
                            "OpenMP:\n" + err[-2500:])
                srcs.append(name + ".o")
        code, _, err = run(["gfortran", "-o", "sim"] + fflags +
                           ["-I", self.shared] + srcs + objs +
                           ["-lpthread",
                            "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"],
                           where)
        if code:
            return ("compile", "generated code does not compile:\n"
                    + err[-2500:])
        return None

    def same_as_plain(self, w, where, code, text):
        """Compare with what comes of the same inputs written plainly"""
        plain = os.path.join(where, "plain")
        os.makedirs(plain)
        for name, some in capworld.render(dict(w, style=None)).items():
            with open(os.path.join(plain, name), "w") as fh:
                fh.write(some)
        pcode, _, _ = run(capgen_cmd(w), plain, env=tool_env())
        if pcode != 0:
            return None
        bad = None
        if code != 0:
            bad = ("style-rejected", "capgen accepts these inputs but not "
                   f"when they are written differently:\n{text[-1500:]}")
        else:
            for name in sorted(set(os.listdir(os.path.join(plain, "out"))) |
                               set(os.listdir(os.path.join(where, "out")))):
                if name == "datatable.xml":
                    continue
                got = []
                for top in (plain, where):
                    path = os.path.join(top, "out", name)
                    if os.path.exists(path):
                        with open(path) as fh:
                            got.append(fh.read().lower().split("\n"))
                    else:
                        got.append([])
                if got[0] != got[1]:
                    diff = list(difflib.unified_diff(got[0], got[1],
                                                     "plain", "styled",
                                                     lineterm="", n=1))
                    bad = ("style-changes-caps", f"{name} differs when the "
                           "inputs are written differently:\n" +
                           "\n".join(diff[:40]))
                    break
        if bad:
            # the rewritten sources must be valid
            parts = ["host_data.F90"] + (["simaux.F90"] if w.get("consts")
                                         else []) + \
                (["simbox.F90"] if w.get("boxes") else []) + \
                [n for s in w["schemes"]
                 for n in (s["name"] + ".F90", s["name"] + ".F")
                 if os.path.exists(os.path.join(where, n))]
            gcode, _, err = run(["gfortran", "-c", "-fsyntax-only",
                                 "-std=gnu", "-I", self.shared] +
                                FFLAGS[:4] + parts, where)
            if gcode:
                raise HarnessError("restyled source is not valid:\n" +
                                   err[-1500:])
        return bad

    def play(self, where, ops):
        """Run a history; return (code, {op number: [lines]}, stderr)"""
        owner = []
        text = ""
        for num, o in enumerate(ops, 1):
            line = script_line(o) + "\n"
            owner += [num] * line.count("\n")
            text += line
        env = {"PATH": os.environ.get("PATH", ""),
               "GFORTRAN_ERROR_BACKTRACE": "0"}
        code, out, err = run(["./sim"], where, 30, env, text.encode())
        groups = {}
        cur = None
        for line in out.split("\n"):
            if not line:
                continue
            task, _, rest = line.partition(" ")
            if rest.startswith("# "):
                cur = owner[int(rest[2:]) - 1]
                groups.setdefault(cur, [])
            elif rest == "end":
                groups["end"] = True
            elif cur is not None:
                groups[cur].append((int(task), rest))
        return code, groups, err

    # ---- histories
    def history(self, rng, w):
        """A seeded history of host actions"""
        return History(rng, w, **self.hist).make()

    def generate(self, seed):
        w = self.world(seed)
        rng = random.Random(seed ^ 0x5eed)
        return {"world": w,
                "histories": [self.history(rng, w)
                              for _ in range(self.histories)]}

    def execute(self, scenario):
        res = Result()
        w = scenario["world"]
        key = digest([scenario, os.getpid()])
        where = os.path.join(self.work, "w" + key)
        for opt in (w.get("style") or {"opts": ()})["opts"]:
            res.stats["written otherwise: " + opt] += 1
        try:
            bad = self.build(w, where)
            trace = []
            if bad:
                res.fail(*bad)
                res.trace = digest([w, bad[0]])
                return res
            for hist in scenario["histories"]:
                obs = self.check_history(w, where, hist, res)
                trace.append(obs)
                res.states.add(digest([w["suites"], obs]))
                if res.violations:
                    break
            res.trace = digest(trace)
        finally:
            if not os.environ.get("VSIM_KEEP"):
                shutil.rmtree(where, ignore_errors=True)
            else:
                print(where)
        return res

    def check_history(self, w, where, hist, res):
        """Run one history against the reference; return what was seen"""
        code, groups, err = self.play(where, hist)
        ref = self.reference(w)
        seen = []
        orders = {}
        res.stats["histories"] += 1
        for num, op in enumerate(hist, 1):
            got = groups.get(num)
            if got is None or (num == len(hist) and "end" not in groups):
                res.fail("crash", f"the host died (code {code}) in op {num} "
                         f"{script_line(op)}\n{err[-1500:]}")
                return digest(seen)
            seen.append(got if op[0] != "live" else None)
            bad = self.step(w, ref, op, got, orders, res)
            if bad and bad[0] == "crash":
                bad = ("crash", bad[1] + f" (code {code})\n{err[-1500:]}")
            if bad:
                res.fail(bad[0], f"op {num} {script_line(op)}: {bad[1]}")
                if bad[0] not in SOFT:
                    return digest(seen)
        return digest(seen)

    def step(self, w, ref, op, got, orders, res):
        """Check one operation; None or (sig, text)"""
        kind = op[0]
        if kind == "fill":
            ref.fill(op[1])
        elif kind == "flag":
            ref.flag(op[1], op[2])
        elif kind == "size":
            ref.resize(op[1], op[2], op[3])
            res.stats["fault:array of wrong size"] += op[2] > 0
        elif kind == "fault":
            ref.faults.append([op[1], op[2], op[3], op[4], op[5], op[6],
                               op[7] if len(op) > 7 else 0])
            res.stats["fault:scheme error armed"] += 1
        elif kind == "nofault":
            ref.faults = []
        elif kind == "call":
            res.stats["sim_steps"] += 1
            return self.check_call(ref, op, got, orders, res)
        elif kind == "par":
            return self.check_par(ref, op, got, orders, res)
        elif kind == "dump":
            return check_dump(ref, got)
        elif kind in CONST_OPS:
            return constworld.step(ref.const, op, got, res)
        elif kind == "ask":
            res.stats["questions"] += 1
            return check_answer(w, op, got)
        elif kind == "live":
            val = int(got[0][1].split()[1])
            if len(op) > 1:
                if op[1] in orders.setdefault("live", {}) and \
                        orders["live"][op[1]] != val:
                    return ("leak", "bytes in use at the same point of "
                            f"identical cycles: {orders['live'][op[1]]} then "
                            f"{val}")
                orders["live"][op[1]] = val
        return None

    def check_call(self, ref, op, got, orders, res):
        """Check one call of the host"""
        phase = PHASES[op[1]]
        suite, part = op[2], op[3]
        lines = [ln for _, ln in got]
        events = [ln for ln in lines if not ln.startswith("R ")]
        ret = [ln for ln in lines if ln.startswith("R ")]
        if len(ret) != 1:
            return ("crash", f"no single return: {lines[:3]}")
        mat = re.match(r"R (-?\d+) \|(.*)\|$", ret[0])
        code, msg = int(mat.group(1)), mat.group(2)
        entered = [ln for ln in events if ln.startswith("E ")]
        why = ref.legal(phase, suite, part)
        if why:
            res.stats["fault:illegal call (" + why.split()[0] + ")"] += 1
            if code == 0:
                return ("illegal-call-accepted",
                        f"{why}, but the call returned 0")
            if not msg.strip() or msg == "unset":
                return ("illegal-call-no-message",
                        f"{why}, code {code} but no message")
            if entered:
                return ("illegal-call-ran-schemes", f"{why}, but {entered}")
            return None
        byid = {i: n for n, i in ref.sid.items()}
        names = [byid[int(ln.split()[1])] for ln in entered]
        wrong = [ln for ln in entered if int(ln.split()[2]) != op[1]]
        if wrong:
            return ("wrong-phase", f"called {wrong} in phase {phase}")
        observed = None
        if phase != "run":
            want = ref.full_order(suite, phase)
            key = f"{suite}/{phase}"
            if names and key not in orders and len(names) == len(want):
                if sorted(names) != sorted(want):
                    return ("dispatch", f"{phase} called {names}, the suite "
                            f"has {want}")
                orders[key] = names
            known = orders.get(key)
            if known:
                observed = known
            elif all(n in want for n in names) and \
                    len(set(names)) == len(names):
                observed = names + [n for n in want if n not in names]
        why, want_ev, wcode, wmsg = ref.call(phase, suite, part, op[4], op[5],
                                             observed)
        if wcode != 0:
            res.stats["fault:scheme error delivered"] += 1
        bad = compare_events(want_ev, events, byid)
        if bad:
            return bad
        if wcode is None:
            res.stats["wrong sizes met by a scheme"] += 1
            if code == 0 or not msg.strip():
                return ("wrong-size-unnoticed", "a host array has not the "
                        f"size of its metadata; code {code} message '{msg}'")
            return None
        if code != wcode:
            return ("return-code", f"expected code {wcode}, got {code} "
                    f"('{msg}')")
        if wcode != 0 and msg.rstrip() != wmsg.rstrip():
            return ("return-message", f"expected message '{wmsg}', got "
                    f"'{msg}'")
        if wcode == 0 and msg.strip():
            return ("return-message", f"success with message '{msg}'")
        return None

    def check_par(self, ref, op, got, orders, res):
        """Check calls made by several threads at once: each must see what it
        would see had the threads run one after the other"""
        mine = {}
        for task, line in got:
            mine.setdefault(task, []).append((task, line))
        last = mine.get(0, [(0, "")])[-1][1].split()
        if len(last) != 4 or last[0] != "G":
            return ("crash", "the threads did not finish")
        res.stats["fault:preemption"] += int(last[2])
        res.stats["yield points"] += int(last[1])
        res.states.add("par" + last[3])
        try:
            for task, calls in enumerate(op[1], 1):
                ref.task = task
                lines = mine.get(task, [])
                for call in calls:
                    res.stats["sim_steps"] += 1
                    end = [i for i, ln in enumerate(lines)
                           if ln[1].startswith("R ")][:1]
                    part = lines[:end[0] + 1] if end else lines
                    lines = lines[len(part):]
                    bad = self.check_call(ref, ["call"] + call, part, orders,
                                          res)
                    if bad:
                        return (bad[0], f"thread {task}, call {call}: "
                                + bad[1])
                if lines:
                    return ("dispatch", f"thread {task}: {lines[0]}")
        finally:
            ref.task = 0
        return None

    # ---- shrinking
    def shrink(self, scenario):
        hists = scenario["histories"]
        if len(hists) > 1:
            for h in hists:
                yield dict(scenario, histories=[h])
        elif hists:
            for cand in shrink_list(hists[0], 1):
                yield dict(scenario, histories=[cand])
            for i, o in enumerate(hists[0]):
                if o[0] == "par":
                    for cand in shrink_par(o):
                        yield dict(scenario, histories=[
                            hists[0][:i] + [cand] + hists[0][i + 1:]])
        w = scenario["world"]
        for cand in self.smaller_worlds(w):
            if self.usable(cand, hists):
                yield dict(scenario, world=cand)

    def reference(self, w):
        """The model of a world"""
        return Ref(w)

    @staticmethod
    def smaller_worlds(w):
        """Smaller worlds"""
        return shrink_world(w)

    @staticmethod
    def usable(w, hists):
        """May these histories still be played on the smaller world?"""
        for h in hists:
            for op in h:
                if op[0] == "fault" and op[1] > len(w["schemes"]):
                    return False
                if op[0] in ("flag", "size") and op[1] >= len(w["host"]):
                    return False
                if op[0] == "size" and (
                        "slice" in w["host"][op[1]] or
                        len(w["host"][op[1]]["dims"]) < max(1, op[2])):
                    return False
        return True

    def describe(self, scenario):
        w = scenario["world"]
        return json.dumps({"suites": w["suites"], "debug": w["debug"],
                           "schemes": {s["name"]: list(s["phases"])
                                       for s in w["schemes"]},
                           "history": [script_line(o) for o in
                                       scenario["histories"][0]][:25]})[:1500]


CONST_OPS = ("regc", "cinit", "cdel", "cput", "cwrong", "cnum", "cask",
             "cprops", "csuite")


def script_line(op):
    """The driver's text of an operation"""
    if op[0] == "fault":
        return "fault " + " ".join(str(x) for x in op[1:6] + op[7:8] +
                                   [0] * (8 - len(op))) + " |" + op[6]
    if op[0] == "par":
        out = [script_line(["task", num] + call)
               for num, calls in enumerate(op[1], 1) for call in calls]
        flat = [x for pair in op[2] for x in pair]
        for i in range(0, len(flat), 60):
            some = flat[i:i + 60]
            out.append(" ".join(str(x) for x in ["sched", len(some)] + some))
        return "\n".join(out + [f"go {len(op[1])}"])
    if op[0] in ("call", "task", "ask", "cask"):
        return " ".join("-" if x == "" else
                        (f"'{x}'" if isinstance(x, str) and i > 0 else str(x))
                        for i, x in enumerate(op))
    return " ".join(str(x) for x in op)


def shrink_par(op):
    """Smaller parallel regions"""
    for cand in shrink_list(op[2], 0):
        yield ["par", op[1], cand]
    for i, calls in enumerate(op[1]):
        for cand in shrink_list(calls, 0):
            yield ["par", op[1][:i] + [cand] + op[1][i + 1:], op[2]]


def shrink_world(w):
    """Smaller worlds (which stay consistent)"""
    for opt in (w.get("style") or {"opts": ()})["opts"]:
        c = json.loads(json.dumps(w))
        c["style"]["opts"].remove(opt)
        yield c
    if w.get("sizes"):
        yield {k: v for k, v in w.items() if k != "sizes"}
    for i in range(len(w["suites"])):
        if len(w["suites"]) > 1:
            c = json.loads(json.dumps(w))
            del c["suites"][i]
            yield c
    for i, s in enumerate(w["suites"]):
        for g in range(len(s["groups"])):
            if len(s["groups"]) > 1:
                c = json.loads(json.dumps(w))
                del c["suites"][i]["groups"][g]
                if consistent(c):
                    yield c
            for k in range(len(s["groups"][g]["items"])):
                if len(s["groups"][g]["items"]) > 1:
                    c = json.loads(json.dumps(w))
                    del c["suites"][i]["groups"][g]["items"][k]
                    if consistent(c):
                        yield c
    for i, s in enumerate(w["schemes"]):
        for p in list(s["phases"]):
            if len(s["phases"]) > 1:
                c = json.loads(json.dumps(w))
                del c["schemes"][i]["phases"][p]
                if consistent(c):
                    yield c
            if "state" in s["phases"][p]:
                c = json.loads(json.dumps(w))
                del c["schemes"][i]["phases"][p]["state"]
                yield c
            for k in range(len(s["phases"][p]["args"])):
                c = json.loads(json.dumps(w))
                del c["schemes"][i]["phases"][p]["args"][k]
                if consistent(c):
                    yield c
    for i in range(len(w["host"]) - 1, -1, -1):
        c = json.loads(json.dumps(w))
        v = c["host"].pop(i)
        if v.get("isflag") or v.get("isloop") or any(
                x.get("slice", {}).get("index") == v["std"]
                for x in c["host"]) or any(
                a["std"] == v["std"] for s in w["schemes"]
                for ph in s["phases"].values() for a in ph["args"]):
            continue
        if w["ddt"] and not any(x["in_ddt"] for x in c["host"]):
            c["ddt"] = False
            for s in c["schemes"]:
                for ph in s["phases"].values():
                    ph.pop("state", None)
        if c["host"]:
            yield c


def consistent(w):
    """Do all suites write what they read?"""
    if w.get("consts") and not constworld.good(w):
        return False
    host = {v["std"] for v in w["host"]} | set(capworld.STDDIM.values())
    for std in {a["std"] for s in w["schemes"] for ph in s["phases"].values()
                for a in ph["args"] if "const" not in a and
                "whole" not in a} - host:
        if capworld.Gen.first_bad(w, std):
            return False
    return True


TOL = 2e-5


def parse_arg(line):
    """('name', kind, shape, values) of an A line"""
    tok = line.split()
    name, kind, rank = tok[1], tok[2], int(tok[3])
    shape = [int(x) for x in tok[4:4 + rank]]
    vals = []
    for x in tok[4 + rank:]:
        try:
            vals.append(int(x) if kind == "i" else float(x))
        except ValueError:
            vals.append(float("nan"))
    return name, kind, shape, vals


def compare_values(want, got, scale):
    """None or the first difference"""
    if len(want) != len(got):
        return f"{len(want)} values expected, {len(got)} seen"
    for i, (x, y) in enumerate(zip(want, got)):
        if x is None:
            continue
        if isinstance(x, int) and not isinstance(x, bool) and \
                isinstance(y, int):
            if x != y:
                return f"element {i + 1}: expected {x}, got {y}"
        elif not (abs(x - y) <= TOL * max(scale, abs(x))):
            return f"element {i + 1}: expected {x!r}, got {y!r}"
    return None


def compare_events(want, got, byid):
    """None or (sig, text)"""
    gi = 0
    for ev in want:
        if gi >= len(got):
            if ev[0] == "E":
                return ("dispatch", f"scheme {byid[ev[1]]} was not called")
            return ("data", f"log ends before {ev[:3]}")
        line = got[gi]
        gi += 1
        if ev[0] in ("E", "X"):
            text = " ".join(str(x) for x in ev)
            if line != text:
                if ev[0] == "E":
                    return ("dispatch", f"expected call of {byid[ev[1]]} "
                            f"({text}), seen: {line[:80]}")
                return ("data", f"expected '{text}', seen '{line[:80]}'")
        elif ev[0] == "N":
            if line != f"N {ev[1]}":
                return ("presence", f"argument {ev[1]} must be absent, seen: "
                        f"{line[:120]}")
        else:
            _, name, scale, shape, vals = ev
            if line == f"N {name}":
                return ("presence", f"argument {name} must be present")
            if not line.startswith("A "):
                return ("data", f"expected argument {name}, seen {line[:80]}")
            gname, _, gshape, gvals = parse_arg(line)
            if gname != name:
                return ("data", f"expected argument {name}, seen {gname}")
            if list(gshape) != list(shape):
                return ("shape", f"argument {name}: expected shape {shape}, "
                        f"got {gshape}")
            bad = compare_values(vals, gvals, scale)
            if bad:
                return ("data", f"argument {name}: {bad}")
    if gi < len(got):
        return ("dispatch", f"unexpected: {got[gi][:80]}")
    return None


def check_answer(w, op, got):
    """Compare a list given by the host cap with the world"""
    what, suite, opt = op[1], op[2], op[3:]
    mat = re.match(r"L (\w+) (-?\d+) (-?\d+) \|(.*)\|$", got[0][1]) \
        if got else None
    if not mat:
        return ("crash", f"no answer: {got[:2]}")
    code, num, msg = int(mat.group(2)), int(mat.group(3)), mat.group(4)
    items = [ln[2:] for _, ln in got[1:]]
    mine = [s for s in w["suites"] if s["name"] == suite]
    if what != "suites" and not mine:
        if code == 0:
            return ("unknown-suite-accepted", f"'{suite}' is no suite, but "
                    "the code is 0")
        if not msg.strip() or msg == "unset":
            return ("unknown-suite-no-message", "an unknown suite gives code "
                    f"{code} but no message")
        return None
    if code != 0 or msg.strip():
        return ("question-failed", f"code {code} message '{msg}'")
    if num < 0 or len(items) != num:
        return ("wrong-list", f"{what} is not allocated")
    sig, allowed = "wrong-list-" + what, set()
    if what == "suites":
        must = may = [s["name"] for s in w["suites"]]
    elif what == "parts":
        must = may = [g["name"] for g in mine[0]["groups"]]
    elif what == "schemes":
        must = may = sorted(set(capworld.names_in(mine[0])))
    else:
        inp, outp = opt[0] != 2, opt[1] != 2
        if inp or outp:
            which = "any" if inp and outp else "input" if inp else "output"
            must, may = tableref.variables(w, mine[0], which, True)
            may = set(may) | tableref.HLOOP
            allowed = tableref.widened(w, mine[0])
        else:
            must = may = []
    lost = sorted(set(must) - set(items))
    more = sorted({x for x in items if items.count(x) > 1} |
                  (set(items) - set(may)))
    if lost or more:
        if not lost and set(more) <= allowed - set(may):
            sig = "widened-by-later-part"
        return (sig, f"{what} of '{suite}' {opt}: {items}\nbut {lost} should "
                f"be there and {more} should not")
    return None


def check_dump(ref, got):
    """Compare the host's data with the reference"""
    lines = [ln for _, ln in got]
    for v, line in zip(ref.w["host"], lines):
        arr = ref.host[v["std"]]
        if v["dims"] and arr is None:
            if line != f"N {v['local']}":
                return ("host-data", f"{v['local']} must not be allocated")
            continue
        if line.startswith("N "):
            return ("host-data", f"{v['local']} is not allocated")
        _, _, shape, vals = parse_arg(line)
        if list(shape) != list(arr.shape):
            return ("host-data", f"{v['local']} has shape {shape}")
        bad = compare_values(arr.data, vals, ref.scale(v))
        if bad:
            return ("host-data", f"host variable {v['local']} ({v['std']}): "
                    f"{bad}")
    if ref.const:
        return constworld.check_dump(
            ref.const, lines[len(ref.w["host"]):], parse_arg, compare_values,
            lambda n: ref.scale(ref.const.byname[n])
            if n in ref.const.byname else 1e-3)
    return None


class History:
    """Seeded histories over one world"""

    def __init__(self, rng, w, illegal=0.12, fault=0.15, cyclic=0.0,
                 chunks=0.5, ask=0.0, par=0.0, flags=0.12, odd=0.0):
        self.rng = rng
        self.p_par = par
        self.p_flags = flags
        self.p_odd = odd
        self.p_ask = ask
        self.w = w
        self.p_illegal = illegal
        self.p_fault = fault
        self.p_chunks = chunks
        self.p_cyclic = cyclic
        self.ops = []
        self.state = {s["name"]: "uninitialized" for s in w["suites"]}
        self.parts = {s["name"]: [g["name"] for g in s["groups"]]
                      for s in w["suites"]}
        self.flags = [i for i, v in enumerate(w["host"])
                      if v.get("isflag") or v.get("isloop")]
        self.script = constworld.Script(self) if w.get("consts") else None

    def make(self):
        """Return the list of operations"""
        rng = self.rng
        for i in self.flags:
            self.setflag(i)
        self.ops.append(["fill", rng.randint(1, 60)])
        if self.script:
            self.script.begin()
            self.body(rng.randint(8, 26))
            if rng.random() < 0.35:
                self.script.again()
                self.body(rng.randint(4, 12))
            return self.ops
        if rng.random() < self.p_cyclic:
            self.cycles()
            return self.ops
        n = rng.randint(8, 26)
        self.body(n)
        if self.w["debug"] and rng.random() < self.p_odd:
            self.oddsize()
        return self.ops

    def body(self, n):
        """<n> actions"""
        rng = self.rng
        while n > 0:
            n -= 1
            suite = rng.choice(sorted(self.state))
            if rng.random() < self.p_ask:
                self.ask(suite)
                continue
            if self.script and rng.random() < 0.2:
                self.script.act()
            roll = rng.random()
            if roll < self.p_illegal:
                self.illegal(suite)
            else:
                self.legal(suite)
            if rng.random() < 0.1:
                self.ops.append(["fill", rng.randint(1, 60)])
            if self.flags and rng.random() < self.p_flags:
                self.setflag(rng.choice(self.flags))

    def oddsize(self):
        """The last call meets a host array of the wrong size"""
        rng = self.rng
        suite = rng.choice(sorted(self.state))
        phases = [p for p in PHASES if p not in ("run", "register")
                  and STATES[p][0] == self.state[suite]]
        arrs = [i for i, v in enumerate(self.w["host"])
                if v["dims"] and "slice" not in v and not (
                    v["in_ddt"] and any("state" in ph for s in self.w["schemes"]
                                        for ph in s["phases"].values()))]
        if not phases or not arrs:
            return
        phase = rng.choice(phases)
        here = {a["std"] for s in self.w["schemes"]
                for a in s["phases"].get(phase, {"args": []})["args"]}
        used = [i for i in arrs if self.w["host"][i]["std"] in here]
        i = rng.choice(used or arrs)
        dims = self.w["host"][i]["dims"]
        dim = rng.randint(1, len(dims))
        self.ops.append(["nofault"])
        self.ops.append(["size", i, dim, rng.choice([-1, 1, 2])])
        self.ops.append(["call", PHNUM[phase], suite, "", 1,
                         self.w["dims"]["H"]])
        self.ops.append(["size", i, 0, 0])
        self.ops.append(["dump"])

    def cycles(self):
        """Whole life cycles of all suites; the memory in use afterwards is
        the same each time"""
        rng = self.rng
        for _ in range(rng.randint(2, 4)):
            names = sorted(self.state)
            rng.shuffle(names)
            todo = []
            # (registration leaves its empty list of constituents behind once)
            self.ops.append(["nofault"])
            keep, self.p_fault = self.p_fault, 0.0
            for suite in names:
                self.call("register", suite)
            self.p_fault = keep
            for suite in names:
                steps = [("initialize", suite)]
                if rng.random() < 0.2:
                    steps.insert(0, ("register", suite))
                for _ in range(rng.randint(0, 2)):
                    steps.append(("timestep_initial", suite))
                    steps += [("run", suite)] * rng.randint(0, 2)
                    steps.append(("timestep_final", suite))
                steps.append(("finalize", suite))
                todo.append(steps)
            # the suites' life cycles overlap
            while any(todo):
                steps = rng.choice([t for t in todo if t])
                phase, suite = steps.pop(0)
                if phase == "run":
                    self.run(suite)
                else:
                    self.call(phase, suite)
                if rng.random() < self.p_illegal:
                    self.illegal(suite)
                if self.flags and rng.random() < self.p_flags / 2:
                    self.setflag(rng.choice(self.flags))
                if rng.random() < 0.05:
                    self.ops.append(["fill", rng.randint(1, 60)])
            for suite in names:
                # (an illegal call may have been a legal one)
                if self.state[suite] == "in_time_step":
                    self.call("timestep_final", suite)
                if self.state[suite] == "initialized":
                    self.call("finalize", suite)
            self.ops.append(["live", "end"])

    def setflag(self, i):
        """Set a flag or a number of iterations"""
        top = 3 if self.w["host"][i].get("isloop") else 1
        self.ops.append(["flag", i, self.rng.randint(0, top)])

    def call(self, phase, suite, part="", cs=1, ce=None):
        """Append a call and a dump; keep track of the state"""
        ce = self.w["dims"]["H"] if ce is None else ce
        if self.rng.random() < self.p_fault:
            self.fault(phase)
        self.ops.append(["call", PHNUM[phase], suite, part, cs, ce])
        self.ops.append(["dump"])
        if suite in self.state and self.state[suite] == STATES[phase][0] and \
                (phase != "run" or part in self.parts[suite]):
            self.state[suite] = STATES[phase][1]

    def fault(self, phase):
        """Arm an error of some scheme"""
        rng = self.rng
        cands = [i + 1 for i, s in enumerate(self.w["schemes"])
                 if phase in s["phases"]]
        if cands:
            code = rng.choice([1, 2, -1, 37, 2147483647, 99])
            msg = rng.choice(["scheme failed", "x" * 200,
                              "it's \"quoted\" | & odd", "e"])
            self.ops.append(["fault", rng.choice(cands), PHNUM[phase],
                             rng.choice([1, 1, 1, 2]), code,
                             rng.choice([0, 0, 1]), msg])

    def legal(self, suite):
        """A call which the state of the suite allows"""
        rng = self.rng
        st = self.state[suite]
        if st == "uninitialized":
            self.call("register" if rng.random() < 0.25 else "initialize",
                      suite)
        elif st == "initialized":
            self.call("timestep_initial" if rng.random() < 0.8
                      else "finalize", suite)
        elif rng.random() < self.p_par:
            self.parallel(suite)
        elif rng.random() < 0.75:
            self.run(suite)
        else:
            self.call("timestep_final", suite)

    def parallel(self, suite):
        """Threads which own disjoint columns run all parts on them"""
        rng = self.rng
        ncol = self.w["dims"]["H"]
        ntask = rng.randint(2, min(4, ncol))
        cuts = sorted(rng.sample(range(1, ncol), ntask - 1))
        tasks = []
        ready = [s for s in sorted(self.state)
                 if self.state[s] == "in_time_step"]
        for task, (cs, ce) in enumerate(zip([1] + [c + 1 for c in cuts],
                                            cuts + [ncol]), 1):
            calls = []
            chunks = [(cs, ce)]
            if ce > cs and rng.random() < 0.4:
                cut = rng.randint(cs, ce - 1)
                chunks = [(cs, cut), (cut + 1, ce)]
            for name in [suite] if rng.random() < 0.5 else ready:
                for lo, hi in chunks:
                    for part in self.parts[name]:
                        calls.append([PHNUM["run"], name, part, lo, hi])
            if task > 1 and rng.random() < self.p_illegal:
                # only the master thread may call the other phases
                calls.insert(rng.randint(0, len(calls)), [
                    PHNUM[rng.choice([p for p in PHASES if p != "run"])],
                    rng.choice(sorted(self.state)), "", 1, ncol])
            if rng.random() < 0.05:
                calls.append([PHNUM["run"], suite, "nosuch", cs, ce])
            tasks.append(calls)
            if rng.random() < self.p_fault:
                self.fault("run")
                if self.ops[-1][0] == "fault":
                    self.ops[-1].append(task)
        mean = rng.choice([1, 3, 10, 40, 150, 600])
        sched = [[1 + int(rng.expovariate(1.0 / mean)), rng.randint(0, 3)]
                 for _ in range(rng.choice([2, 5, 40, 200]))]
        self.ops.append(["par", tasks, sched])
        self.ops.append(["dump"])

    def run(self, suite):
        """Run parts over all columns, perhaps in chunks"""
        rng = self.rng
        parts = list(self.parts[suite])
        if rng.random() < 0.3:
            parts = [rng.choice(parts)]
        ncol = self.w["dims"]["H"]
        for part in parts:
            if rng.random() < self.p_chunks:
                cuts = sorted(rng.sample(range(1, ncol), rng.randint(1, 2)))
                bounds = list(zip([1] + [c + 1 for c in cuts], cuts + [ncol]))
                rng.shuffle(bounds)
                if rng.random() < 0.2:
                    bounds.pop()
                for cs, ce in bounds:
                    self.call("run", suite, part, cs, ce)
            else:
                self.call("run", suite, part)

    def ask(self, suite):
        """Ask the host cap about a suite"""
        rng = self.rng
        if rng.random() < 0.12:
            suite = rng.choice(["nosuch", "", suite + "x", suite.upper(),
                                suite[:-1]])
            if suite in self.state:
                return
        what = rng.choice(["suites", "parts", "schemes"] + ["variables"] * 4)
        self.ops.append(["ask", what, suite] +
                        [rng.choice([0, 1, 1, 2]) for _ in range(3)])

    def illegal(self, suite):
        """Any call in any state; names which do not exist"""
        rng = self.rng
        roll = rng.random()
        if roll < 0.25:
            bad = rng.choice(["nosuch", suite + "x", suite[:-1], "",
                              suite.upper()])
            if bad not in self.state:
                self.call(rng.choice(PHASES), bad,
                          rng.choice(self.parts[suite]))
        elif roll < 0.45:
            part = rng.choice(["nosuch", "", suite,
                               rng.choice(self.parts[suite])[:-1]])
            if part not in self.parts[suite]:
                self.call("run", suite, part)
        else:
            phase = rng.choice(PHASES)
            self.call(phase, suite, rng.choice(self.parts[suite]))
