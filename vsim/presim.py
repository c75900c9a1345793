"""The ccpp_prebuild simulation: random worlds are given to the real script,
its caps and static API are compiled with scheme stubs and a scripted host, and
seeded histories of host calls on several instances, chunks and threads are
compared with the reference."""
import json
import os
import random
import re
import sys

from . import preworld
from .capsim import (CapSim, FFLAGS, check_dump, compare_events, run,
                     script_line, tool_env)
from .core import HarnessError, REPO, VERIF
from .preworld import PHASES, PHNUM

MPI = """module mpi_f08
  implicit none
  type :: MPI_Comm
    integer :: mpi_val = 0
  end type MPI_Comm
end module mpi_f08
"""
BASE = {"nvars": (2, 9), "nschemes": (1, 5), "nsuites": (1, 3), "ngroups": 3,
        "nargs": 6, "phases": 0.45, "ddt": 0.4, "active": 0.15,
        "slices": 0.25, "units": 0.2, "optional": 0.1, "special": 0.12,
        "deblock": 0.4, "debug": 0.2, "suitewide": 0.2,
        "style": 0.25, "layout": 0.4, "few": 0.25, "mod2": 0.25,
        "sharefile": 0.2, "inter": 0.2, "short": 0.05}
CONF = {
    "P01": {"feat": {"units": 0.35, "slices": 0.35, "active": 0.25,
                     "special": 0.2, "ddt": 0.5, "inter": 0.3},
            "histories": 6, "runs": 240},
    "P02": {"feat": {"units": 0.1, "nargs": 3, "nvars": (1, 5)},
            "hist": {"illegal": 0.3, "fault": 0.5},
            "histories": 20, "runs": 130},
    "P03": {"feat": {"threads": 0.7, "units": 0.4, "active": 0.25},
            "hist": {"illegal": 0.05, "fault": 0.15, "par": 0.6},
            "histories": 12, "runs": 130},
}


def prebuild_cmd(w, extra=()):
    """The command line of a world"""
    cmd = [sys.executable, os.path.join(REPO, "scripts", "ccpp_prebuild.py"),
           "--config=config.py"]
    if w.get("verbose"):
        cmd.append("--verbose")
    if not w.get("nodir"):
        cmd.append("--builddir=build")
    if w["debug"]:
        cmd.append("--debug")
    if w["namespace"]:
        cmd.append("--namespace=" + w["namespace"])
    if w["listed"]:
        legacy = {s["name"]: s["legacy"] for s in w["suites"]}
        cmd.append("--suites=" + ",".join(
            ("suite_" if legacy[n] else "") + n for n in w["listed"]))
    return cmd + list(extra)


class PreSim(CapSim):
    """Checks which run what ccpp_prebuild generates"""

    components_real = [
        "scripts/ccpp_prebuild.py and everything it imports",
        "generated static API, suite caps and group caps (compiled with "
        "gfortran)", "src/ccpp_types.F90"]
    components_stub = [
        "host model (fortran driver written by the simulator)",
        "physics schemes (stubs written by the simulator)",
        "module mpi_f08 (an empty MPI_Comm)",
        "threads (one runs at a time, switched by the seeded schedule)",
        "malloc/free (counting, poisoning)"]
    rule = ("one run is one random world (host model, schemes, suites) given "
            "to the real ccpp_prebuild.py, compiled, and driven by seeded "
            "histories of calls of the static API with injected scheme errors "
            "and illegal calls; it counts when it produced a trace different "
            "from every other run's")
    histories = 12

    def __init__(self, prop, tier="quick"):
        super().__init__(prop, tier)
        conf = CONF.get(prop, CONF["P01"])
        self.feat = dict(BASE, **conf["feat"])
        self.hist = conf.get("hist", {})
        self.histories = conf["histories"]
        self.nruns = conf["runs"]

    def prepare(self):
        """Compile what every world shares"""
        self.shared = os.path.join(self.work, "shared")
        os.makedirs(self.shared)
        fdir = os.path.join(VERIF, "fortran")
        for name in ("simalloc.c", "simtask.c"):
            code, _, err = run(["gcc", "-c", "-O1", "-fno-builtin",
                                os.path.join(fdir, name)], self.shared)
            if code:
                raise HarnessError(err)
        for name, text in (("mpi_f08.F90", MPI),
                           ("ccpp_kinds.F90", preworld.KINDS)):
            with open(os.path.join(self.shared, name), "w") as fh:
                fh.write(text)
        for src in ("mpi_f08.F90", "ccpp_kinds.F90",
                    os.path.join(fdir, "simcore.F90")):
            code, _, err = run(["gfortran", "-c"] + FFLAGS + [src],
                               self.shared)
            if code:
                raise HarnessError(err)
        code, _, err = run(["gfortran", "-c"] + FFLAGS +
                           [os.path.join(REPO, "src", "ccpp_types.F90")],
                           self.shared)
        if code:
            return [("library-does-not-compile", err[-2000:])]
        return None

    def world(self, seed):
        """The world of a seed"""
        return preworld.Gen(random.Random(seed), self.feat).world()

    def build(self, w, where, keep_generated=None):
        """Write, generate and compile a world; None or (sig, text)"""
        write_files(w, where)
        code, out, err = run(prebuild_cmd(w), where, env=tool_env())
        if code != 0:
            return ("rejected", "ccpp_prebuild refused consistent inputs "
                    f"(code {code}):\n{out[-600:]}\n{err[-1800:]}")
        caps = sorted(os.listdir(os.path.join(where, "build", "caps")))
        want = preworld.caps(w)
        if caps != sorted(want):
            return ("missing-output", f"ccpp_prebuild wrote only {caps}, not "
                    f"{sorted(want)}")
        api = f"build/api/{preworld.api(w)}.F90"
        if not os.path.exists(os.path.join(where, api)):
            return ("missing-output", f"ccpp_prebuild wrote no {api}")
        phys = preworld.host_files(w)[1:] + preworld.scheme_files(w)
        caps = ["build/caps/" + c for c in want[::-1]] + [api]
        with open(os.path.join(where, "driver.F90"), "w") as fh:
            fh.write(preworld.driver(w))
        fflags = FFLAGS
        if any(v["active"] for v in w["host"]):
            fflags = [f.replace("bounds,", "") for f in FFLAGS]
        thr = ["-fopenmp"] if w["threads"] else []
        objs = []
        for name, parts, opts in (
                ("phys", phys, []),
                ("caps", caps, ["-fsanitize=thread"] if thr else []),
                ("host", ["driver.F90"], [])):
            with open(os.path.join(where, name + ".F90"), "w") as fh:
                for part in parts:
                    with open(os.path.join(where, part)) as src:
                        fh.write(f"# 1 \"{part}\"\n" + src.read() + "\n")
            code, _, err = run(["gfortran", "-c"] + thr + fflags + opts +
                               ["-I", self.shared, name + ".F90"], where)
            if code and name == "phys":
                raise HarnessError("stubs are not valid:\n" + err[-2500:])
            if code and name == "caps":
                return ("compile", "generated code does not compile:\n" +
                        err[-2500:])
            if code:
                return ("compile", "the host cannot use the static API:\n" +
                        err[-2500:])
            objs.append(name + ".o")
        objs += [os.path.join(self.shared, o) for o in (
            "simalloc.o", "simtask.o", "mpi_f08.o", "ccpp_kinds.o",
            "simcore.o", "ccpp_types.o")]
        code, _, err = run(["gfortran", "-o", "sim"] + objs +
                           ["-lpthread",
                            "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"],
                           where)
        if code:
            return ("compile", "generated code does not link:\n" +
                    err[-2500:])
        return None

    def reference(self, w):
        """The model of a world"""
        return preworld.PreRef(w)

    def history(self, rng, w):
        return PreHistory(rng, w, **self.hist).make()

    def step(self, w, ref, op, got, orders, res):
        if op[0] == "size":
            ref.resize(op[1], op[2])
            res.stats["fault:array of wrong size"] += op[2] != 0
            return None
        return super().step(w, ref, op, got, orders, res)

    def check_call(self, ref, op, got, orders, res):
        """Check one call of the static API"""
        phase = PHASES[op[1] - 1]
        suite, part, inst, chunk, thrd = op[2:7]
        lines = [ln for _, ln in got]
        events = [ln for ln in lines if not ln.startswith("R ")]
        ret = [ln for ln in lines if ln.startswith("R ")]
        if len(ret) != 1:
            return ("crash", f"no single return: {lines[:3]}")
        mat = re.match(r"R (-?\d+) (-?\d+) \|(.*)\|$", ret[0])
        ierr, code, msg = int(mat.group(1)), int(mat.group(2)), mat.group(3)
        why, want, wcode, wmsg, odd = ref.pcall(phase, suite, part, inst,
                                                chunk, thrd)
        byid = {i: n for n, i in ref.sid.items()}
        if wcode != 0 and not why and not odd:
            res.stats["fault:scheme error delivered"] += 1
        bad = compare_events(want, events, byid)
        if bad:
            return bad
        if ierr != code:
            return ("return-code", f"the call returns {ierr}, but the error "
                    f"flag of the host's data is {code}")
        if why:
            res.stats["fault:illegal call (" + why.split(":")[0] + ")"] += 1
            if code == 0:
                return ("illegal-call-accepted",
                        f"{why}, but the call returned 0 ('{msg}')")
            if not msg.strip() or msg == "unset":
                return ("illegal-call-no-message",
                        f"{why}, code {code} but no message")
            return None
        if odd:
            res.stats["wrong sizes met by a scheme"] += 1
            if code == 0 or not msg.strip() or msg == "unset":
                return ("wrong-size-unnoticed", "a host array has not the "
                        f"size of its metadata; code {code} message '{msg}'")
            return None
        if code != wcode:
            return ("return-code", f"expected code {wcode}, got {code} "
                    f"('{msg}')")
        if wcode != 0 and wmsg.rstrip() not in msg:
            return ("return-message", f"expected message '{wmsg}' in '{msg}'")
        return None

    def shrink(self, scenario):
        hists = scenario["histories"]
        yield from super().shrink(dict(scenario))
        if len(hists) == 1:
            w = scenario["world"]
            for s in range(len(w["suites"])):
                if len(w["suites"]) > 1:
                    c = json.loads(json.dumps(w))
                    gone = c["suites"].pop(s)["name"]
                    if c["listed"]:
                        c["listed"] = [n for n in c["listed"] if n != gone]
                        if not c["listed"]:
                            continue
                    yield dict(scenario, world=c)

    @classmethod
    def smaller_worlds(cls, w):
        """Smaller worlds"""
        for c in cls.smaller_any(w):
            yield preworld.tidy(c)

    @staticmethod
    def smaller_any(w):
        """Smaller worlds, perhaps with suite-wide schemes of no group"""
        def copy():
            return json.loads(json.dumps(w))
        if w.get("style"):
            yield dict(copy(), style=None)
            for opt in w["style"]["opts"]:
                c = copy()
                c["style"]["opts"].remove(opt)
                yield c
        for i, s in enumerate(w["suites"]):
            for tag in ("init", "finalize"):
                if s.get(tag):
                    c = copy()
                    c["suites"][i][tag] = None
                    yield c
        for i, s in enumerate(w["suites"]):
            for g in range(len(s["groups"])):
                if len(s["groups"]) > 1:
                    c = copy()
                    del c["suites"][i]["groups"][g]
                    yield c
                cyc = s["groups"][g]["subcycles"]
                for k in range(len(cyc)):
                    if len(cyc) > 1:
                        c = copy()
                        del c["suites"][i]["groups"][g]["subcycles"][k]
                        yield c
                    for n in range(len(cyc[k]["schemes"])):
                        if len(cyc[k]["schemes"]) > 1:
                            c = copy()
                            del c["suites"][i]["groups"][g]["subcycles"][k][
                                "schemes"][n]
                            yield c
        for i, s in enumerate(w["schemes"]):
            for p in list(s["phases"]):
                if len(s["phases"]) > 1:
                    c = copy()
                    del c["schemes"][i]["phases"][p]
                    yield c
                for k in range(len(s["phases"][p]["args"])):
                    c = copy()
                    del c["schemes"][i]["phases"][p]["args"][k]
                    yield c
        for opt in ("debug", "namespace", "listed"):
            if w[opt]:
                c = copy()
                c[opt] = type(w[opt])() or None if opt == "listed" else \
                    type(w[opt])()
                yield c

    @staticmethod
    def usable(w, hists):
        return True

    def describe(self, scenario):
        w = scenario["world"]
        return json.dumps({"mode": w["mode"], "suites": w["suites"],
                           "debug": w["debug"],
                           "schemes": {s["name"]: list(s["phases"])
                                       for s in w["schemes"]},
                           "history": [script_line(o) for o in
                                       scenario["histories"][0]][:25]})[:1500]


def write_files(w, where):
    """Write the inputs of a world"""
    for name, text in preworld.render(w, REPO).items():
        path = os.path.join(where, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fh:
            fh.write(text)
    os.makedirs(os.path.join(where, "build", "caps"), exist_ok=True)


class PreHistory:
    """Seeded histories over one world"""

    def __init__(self, rng, w, illegal=0.08, fault=0.12, par=0.0, flags=0.15,
                 odd=0.0):
        self.rng = rng
        self.w = w
        self.p_illegal = illegal
        self.p_fault = fault
        self.p_par = par
        self.p_flags = flags
        self.p_odd = odd
        self.ops = []
        self.suites = preworld.called(w)
        self.ready = set()
        self.flags = [i for i, v in enumerate(w["host"])
                      if v.get("isflag") or v.get("isloop")]

    def make(self):
        """Return the list of operations"""
        rng = self.rng
        for i in self.flags:
            self.setflag(i)
        self.ops.append(["fill", rng.randint(1, 60)])
        for _ in range(rng.randint(6, 24)):
            if rng.random() < self.p_illegal:
                self.illegal()
            else:
                self.legal()
            if rng.random() < 0.1:
                self.ops.append(["fill", rng.randint(1, 60)])
            if self.flags and rng.random() < self.p_flags:
                self.setflag(rng.choice(self.flags))
        if self.w["debug"] and rng.random() < self.p_odd:
            self.oddsize()
        return self.ops

    def setflag(self, i):
        """Set a flag or an option"""
        top = 3 if self.w["host"][i].get("isloop") else 1
        self.ops.append(["flag", i, self.rng.randint(0, top)])

    def fault(self, phase, task=None):
        """Arm an error of some scheme"""
        rng = self.rng
        cands = [i + 1 for i, s in enumerate(self.w["schemes"])
                 if phase in s["phases"]]
        if cands:
            self.ops.append(["fault", rng.choice(cands), PHNUM[phase],
                             rng.choice([1, 1, 1, 2, 3]),
                             rng.choice([1, 2, -1, 37, 2147483647, 99]),
                             rng.choice([0, 0, 1]),
                             rng.choice(["scheme failed", "x" * 200,
                                         "it's \"quoted\" | & odd", "e"])] +
                            ([task] if task else []))

    def call(self, phase, suite, part, inst=None, chunk=None):
        """One call, with the host's data afterwards"""
        rng = self.rng
        if rng.random() < self.p_fault:
            self.fault(phase)
        inst = inst or rng.randint(1, self.w["insts"])
        chunk = chunk or rng.randint(1, len(self.w["chunks"]))
        self.ops.append(["call", PHNUM[phase], suite, part, inst, chunk,
                         rng.randint(1, self.w["thrds"])])
        self.ops.append(["dump"])
        for s in self.suites:
            if s["name"] == suite:
                for g in s["groups"]:
                    if part in ("*", g["name"]):
                        key = (suite, g["name"], inst)
                        if phase == "initialize":
                            self.ready.add(key)
                        elif phase == "finalize":
                            self.ready.discard(key)

    def part(self, suite):
        """A group of a suite, or all of it"""
        if self.rng.random() < 0.4:
            return "*"
        return self.rng.choice(suite["groups"] +
                               preworld.special(suite))["name"]

    def legal(self):
        """A call which fits what went before"""
        rng = self.rng
        s = rng.choice(self.suites)
        inst = rng.randint(1, self.w["insts"])
        missing = [g["name"] for g in s["groups"]
                   if (s["name"], g["name"], inst) not in self.ready]
        have = [g["name"] for g in s["groups"]
                if g["name"] not in missing]
        if missing and (not have or rng.random() < 0.6):
            self.call("initialize", s["name"], "*" if rng.random() < 0.6 else
                      rng.choice(missing), inst)
            return
        part = "*" if not missing and rng.random() < 0.4 else rng.choice(have)
        roll = rng.random()
        if roll < 0.12:
            self.call("finalize", s["name"], part, inst)
        elif roll < 0.25:
            self.call("timestep_initial", s["name"], part, inst)
        elif roll < 0.35:
            self.call("timestep_final", s["name"], part, inst)
        elif self.w["threads"] and rng.random() < self.p_par and \
                len(self.w["chunks"]) > 1:
            self.parallel(s["name"], part, inst)
        else:
            chunks = list(range(1, len(self.w["chunks"]) + 1))
            rng.shuffle(chunks)
            if rng.random() < 0.3:
                chunks = chunks[:1]
            for c in chunks:
                self.call("run", s["name"], part, inst, c)

    def parallel(self, suite, part, inst):
        """Threads work on the chunks"""
        rng = self.rng
        num = len(self.w["chunks"])
        ntask = min(num, self.w["thrds"], 4)
        if ntask < 2:
            return
        chunks = list(range(1, num + 1))
        rng.shuffle(chunks)
        tasks = [[] for _ in range(ntask)]
        more = sorted({(s, g) for s, g, i in self.ready if i == inst})
        for n, c in enumerate(chunks):
            t = n % ntask
            tasks[t].append([PHNUM["run"], suite, part, inst, c, t + 1])
            if rng.random() < 0.5:
                s, g = rng.choice(more)
                tasks[t].append([PHNUM["run"], s, g, inst, c, t + 1])
            if rng.random() < 0.04:
                tasks[t].append([PHNUM["run"], suite, "nosuch", inst, c,
                                 t + 1])
        for t in range(ntask):
            if rng.random() < self.p_fault:
                self.fault("run", t + 1)
        mean = rng.choice([1, 3, 10, 40, 150, 600])
        sched = [[1 + int(rng.expovariate(1.0 / mean)), rng.randint(0, 3)]
                 for _ in range(rng.choice([2, 5, 40, 200]))]
        self.ops.append(["par", tasks, sched])
        self.ops.append(["dump"])

    def illegal(self):
        """Any call at any time; names which do not exist"""
        rng = self.rng
        s = rng.choice(self.suites)
        roll = rng.random()
        if roll < 0.25:
            bad = rng.choice(["nosuch", s["name"] + "x", s["name"][:-1], "",
                              s["name"] + "_" + s["groups"][0]["name"]])
            if bad not in [x["name"] for x in self.suites]:
                self.call(rng.choice(PHASES), bad, self.part(s))
        elif roll < 0.5:
            bad = rng.choice(["nosuch", s["name"] + "_", "",
                              s["groups"][0]["name"][:-1]])
            if bad not in [g["name"] for g in s["groups"]]:
                self.call(rng.choice(PHASES), s["name"], bad)
        else:
            self.call(rng.choice(PHASES), s["name"], self.part(s))

    def oddsize(self):
        """The last calls meet a host array of the wrong size"""
        rng = self.rng
        arrs = [i for i, v in enumerate(self.w["host"])
                if v["dims"] and "slice" not in v and
                not preworld.blocked(self.w, v)]
        if not arrs:
            return
        i = rng.choice(arrs)
        self.ops.append(["nofault"])
        self.ops.append(["size", i, rng.choice([-1, 1, 2])])
        keep, self.p_fault = self.p_fault, 0.0
        for _ in range(2):
            s = rng.choice(self.suites)
            self.call(rng.choice(PHASES), s["name"], self.part(s))
        self.p_fault = keep
        self.ops.append(["size", i, 0])
        self.ops.append(["dump"])
