"""The tool simulation: a project directory lives through a seeded history of
edits, capgen runs, clean-ups, queries and accidents on simulated storage, and
after every step is compared with what a run into an empty directory yields."""
import hashlib
import json
import os
import random
import re
import shutil
import sys

from . import breaks, capworld, style, tableref
from .capsim import BASE, KINDS, consistent, run, shrink_world, tool_env
from .core import REPO, Result, Sim, VERIF, digest, shrink_list

# the tool's own kinds of errors, which say what is wrong
TOLD = re.compile(r"^(\w+\.)?(CCPPError|Parse\w*Error|CCPPDatatableError|Exception): ",
                  re.M)
SHIM = os.path.join(VERIF, "vsim", "shim.py")
SCRATCH = "ccpp_temp_scratch_dir"
FEAT = dict(BASE, suites=0.5, subcycle=0.2, debug=0.2, dimargs=0.3,
            suitevars=1.0, deps=0.6, consts=0.3, chars=0.25, slices=0.2,
            optional=0.1, active=0.15, boxes=0)
# classes of storage operations: (weight, largest n)
OPS = {"open-r": (3, 40), "open-w": (3, 8), "write": (5, 900),
       "close": (3, 8), "replace": (5, 7), "remove": (2, 7), "mkdir": (1, 2),
       "rmdir": (1, 2), "list": (2, 5), "spawn": (2, 4), "any": (4, 1500)}
CONF = {
    "T01": {"runs": 150, "weights": {"run": 6, "edit": 1, "wipe": 4},
            "fault": 0.0, "ops": (4, 6), "versions": 2, "force": 0.2,
            "style": 0.25},
    "T02": {"runs": 150, "weights": {"run": 5, "edit": 5, "tamper": 3,
                                    "clean": 1}, "fault": 0.35,
            "ops": (6, 10), "versions": 4, "force": 0.2},
    "T03": {"runs": 120, "weights": {"run": 6, "edit": 3, "foreign": 1,
                                    "tamper": 1}, "fault": 0.1,
            "ops": (6, 9), "versions": 3, "force": 0.25},
    "T04": {"runs": 200, "weights": {"run": 7, "edit": 3, "tamper": 1,
                                    "wipe": 2}, "fault": 0.9,
            "ops": (7, 11), "versions": 3, "force": 0.2},
    "T05": {"runs": 120, "weights": {"run": 4, "edit": 2, "clean": 5,
                                    "foreign": 2}, "fault": 0.1,
            "ops": (7, 11), "versions": 3, "force": 0.1},
    "T06": {"runs": 150, "weights": {"run": 3, "edit": 3, "query": 7,
                                    "damage": 1}, "fault": 0.05,
            "ops": (7, 10), "versions": 3, "force": 0.1},
    "T07": {"runs": 250, "weights": {"run": 4, "break": 7, "edit": 2},
            "fault": 0.0, "ops": (8, 12), "versions": 2, "force": 0.1,
            "style": 0.3},
}


class ToolSim(Sim):
    """Histories of the capgen command-line tools"""

    components_real = [
        "scripts/ccpp_capgen.py, scripts/ccpp_datafile.py and everything they "
        "import, each run in a process of its own"]
    components_stub = [
        "storage (file operations intercepted: order of listings, clock of "
        "written files, the n-th operation fails, disk full, death of the "
        "process with data in flight torn)",
        "start of child processes (xmllint missing, killed, no process)"]
    time_unit = "tool runs"
    rule = ("one run is one random project with several versions and a seeded "
            "history of edits, tool runs, faults and accidents; it counts "
            "when what it observed differs from every other run's")
    measure = "distinct digests of the project's output directory after a step"
    assumptions = [
        "an operation of the tool which the shim does not see (none known in "
        "the current tools) would not be failed",
        "faults of listing inputs by wildcard are not injected (the glob "
        "module of Python hides them)"]

    def __init__(self, prop, tier="quick"):
        super().__init__(prop, tier)
        self.conf = CONF[prop]

    def runs(self, tier):
        return self.conf["runs"] * (1 if tier == "quick" else 30)

    # ---- scenario
    def generate(self, seed):
        rng = random.Random(seed)
        conf = self.conf
        world = capworld.Gen(rng, FEAT).world()
        versions = [world]
        while len(versions) < conf["versions"]:
            w = rng.choice(versions)
            for _ in range(rng.choice([1, 1, 2, 4])):
                cands = list(shrink_world(w)) + list(self.variants(rng, w))
                if not cands:
                    break
                w = rng.choice(cands)
            versions.append(w)
        rng.shuffle(versions)
        for i, w in enumerate(versions):
            if rng.random() < conf.get("style", 0):
                versions[i] = dict(w, style=style.draw(rng, ("fixed",)))
        sc = {"versions": versions,
              "mode": rng.choice(["files", "files", "txt", "dir", "glob"]),
              "hostcap": rng.random() < 0.85, "outdir": rng.choice(
                  ["out", "out", "build", "gen/caps"]),
              "table": rng.choice(["datatable.xml", "datatable.xml",
                                   "ccpp_data.xml"]), "ops": []}
        kinds = list(conf["weights"])
        wts = [conf["weights"][k] for k in kinds]
        ops = sc["ops"]
        ops.append(["edit", 0])
        if rng.random() < 0.8:
            ops.append(["run", self.opts(rng), self.plan(rng, 0.15)])
        for _ in range(rng.randint(*conf["ops"])):
            kind = rng.choices(kinds, wts)[0]
            if kind == "edit":
                ops.append(["edit", rng.randrange(len(versions))])
                if rng.random() < 0.6:
                    ops.append(["run", self.opts(rng),
                                self.plan(rng, conf["fault"])])
            elif kind == "run":
                ops.append(["run", self.opts(rng),
                            self.plan(rng, conf["fault"])])
            elif kind == "break":
                ops.append(["break", rng.randrange(len(versions)),
                            rng.choice([x for x in sorted(breaks.BREAKS)
                                        if sc["hostcap"]
                                        or x not in breaks.HOST_CAP]),
                            rng.randrange(1000)])
                ops.append(["run", self.opts(rng), self.plan(rng, 0)])
                if rng.random() < 0.5:
                    ops.append(["edit", rng.randrange(len(versions))])
            elif kind == "clean":
                ops.append(["clean", self.plan(rng, conf["fault"])])
            elif kind == "foreign":
                ops.append(["foreign", rng.choice(
                    ["notes.txt", "ccpp_mine.F90", "sub/deep.txt", "Makefile",
                     "ccpp_kinds.o"])])
            elif kind == "tamper":
                ops.append(["tamper", rng.choice(
                    ["delete", "truncate", "append", "empty", "scratch",
                     "samesize"]), rng.randrange(8)])
            elif kind == "damage":
                ops.append(["damage", round(rng.random(), 3)])
            elif kind == "query":
                for _ in range(rng.randint(1, 3)):
                    ops.append(["query", rng.choice(tableref.REPORTS),
                                rng.randrange(100), rng.random() < 0.3,
                                rng.choice([",", ",", ";", ", "])])
            else:
                ops.append([kind])
        if rng.random() < 0.5 or conf["fault"] > 0.3:
            ops.append(["edit", rng.randrange(len(versions))])
        ops.append(["run", self.opts(rng), self.plan(rng, 0)])
        if conf["weights"].get("query"):
            ops.append(["query", rng.choice(tableref.REPORTS),
                        rng.randrange(100), False, ","])
        if conf["weights"].get("clean"):
            ops.append(["clean", self.plan(rng, 0)])
        return sc

    @staticmethod
    def variants(rng, w):
        """Other edits: nothing is lost, something changes"""
        def copy():
            return json.loads(json.dumps(w))
        c = copy()
        c["debug"] = not c["debug"]
        yield c
        c = copy()
        s = rng.choice(c["suites"])
        g = rng.choice(s["groups"])
        g["name"] = g["name"] + "b"
        yield c
        c = copy()
        s = rng.choice(c["schemes"])
        if s.pop("deps", None) is None:
            s["deps"] = {"files": ["new.F90"], "rows": 1, "rel": None}
        yield c
        c = copy()
        g = rng.choice(rng.choice(c["suites"])["groups"])
        rng.shuffle(g["items"])
        if consistent(c):
            yield c
        c = copy()
        phs = [ph for s in c["schemes"] for ph in s["phases"].values()]
        rng.shuffle(rng.choice(phs)["args"])
        yield c
        c = copy()
        rng.shuffle(c["schemes"])
        if consistent(c):
            yield c
        c = copy()
        v = rng.choice(c["host"])
        v["local"] = v["local"] + "n"
        yield c

    def opts(self, rng):
        """Options of a run"""
        return {"force": rng.random() < self.conf["force"],
                "verbose": rng.random() < 0.1}

    @staticmethod
    def plan(rng, pfault):
        """Storage of a run"""
        plan = {"hashseed": rng.choice(["0", str(rng.randrange(1, 4000))]),
                "listing": rng.choice([None, rng.randrange(1000)]),
                "clock": None}
        if rng.random() < 0.3:
            plan["clock"] = {"start": rng.choice(
                [0, 10 ** 18, 4 * 10 ** 18]) + rng.randrange(1000),
                "tick": rng.choice([0, 0, 10 ** 9, -10 ** 9])}
        if rng.random() < pfault:
            cls = rng.choices(list(OPS), [v[0] for v in OPS.values()])[0]
            if cls == "spawn":
                kind = rng.choice(["missing", "killed", "fork", "crash"])
            elif cls in ("write", "close", "open-w", "mkdir"):
                kind = rng.choice(["eio", "enospc", "enospc", "crash"])
            elif cls == "any":
                kind = rng.choice(["crash", "crash", "eio"])
            else:
                kind = rng.choice(["eio", "eacces", "crash"])
            big = OPS[cls][1]
            num = rng.randint(1, big)
            if cls in ("write", "any") and rng.random() < 0.4:
                num = rng.randint(1, 60)
            plan["fault"] = {"cls": cls, "kind": kind, "n": num,
                             "cut": rng.choice([0, 0.3, 0.9, 1])}
        return plan

    # ---- execution
    def execute(self, scenario):
        res = Result()
        where = os.path.join(self.work, "t" + digest([scenario, os.getpid()]))
        os.makedirs(where)
        try:
            play = self.player(scenario, where, res)
            for num, op in enumerate(scenario["ops"]):
                play.num = num
                play.step(op)
                if res.violations:
                    break
            res.trace = digest(play.seen)
            res.stats["sim_time"] = play.tools
            res.nontrivial = play.tools > 0
        finally:
            if not os.environ.get("VSIM_KEEP"):
                shutil.rmtree(where, ignore_errors=True)
            else:
                print(where)
        return res

    @staticmethod
    def player(scenario, where, res):
        """Plays one scenario"""
        return Play(scenario, where, res)

    # ---- shrinking
    def shrink(self, scenario):
        for ops in shrink_list(scenario["ops"], 1):
            yield dict(scenario, ops=ops)
        for i, op in enumerate(scenario["ops"]):
            if op[0] in ("run", "clean"):
                plan = op[-1]
                for key, val in (("fault", None), ("listing", None),
                                 ("clock", None), ("hashseed", "0")):
                    if plan.get(key, val) != val:
                        ops = list(scenario["ops"])
                        ops[i] = op[:-1] + [dict(plan, **{key: val})]
                        yield dict(scenario, ops=ops)
                if op[0] == "run":
                    for key in ("force", "verbose"):
                        if op[1][key]:
                            ops = list(scenario["ops"])
                            ops[i] = ["run", dict(op[1], **{key: False}), plan]
                            yield dict(scenario, ops=ops)
        for key, val in (("mode", "files"), ("hostcap", True),
                         ("outdir", "out"), ("table", "datatable.xml")):
            if scenario[key] != val:
                yield dict(scenario, **{key: val})
        used = sorted({op[1] for op in scenario["ops"]
                       if op[0] in ("edit", "break")})
        if len(used) < len(scenario["versions"]):
            ops = [[op[0], used.index(op[1])] + op[2:]
                   if op[0] in ("edit", "break") else op
                   for op in scenario["ops"]]
            yield dict(scenario, ops=ops,
                       versions=[scenario["versions"][u] for u in used])
        for i, w in enumerate(scenario["versions"]):
            for cand in shrink_world(w):
                vers = list(scenario["versions"])
                vers[i] = cand
                yield dict(scenario, versions=vers)

    def describe(self, scenario):
        return json.dumps({"suites": scenario["versions"][0]["suites"],
                           "mode": scenario["mode"],
                           "ops": scenario["ops"]})[:1500]


def sha(path):
    """Digest of a file"""
    with open(path, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


class Play:
    """One project and its reference"""

    def __init__(self, scenario, where, res):
        self.sc = scenario
        self.where = where
        self.res = res
        self.proj = os.path.join(where, "p")
        self.refd = os.path.join(where, "r")
        self.cur = None                 # (version, break)
        self.refs = {}
        self.seen = []
        self.tools = 0
        self.num = 0
        self.foreign = {}
        self.good = None                # reference of the last complete run
        self.last_files = {}
        self.partial = set()            # made by failing runs since then
        os.makedirs(self.proj)
        os.makedirs(os.path.join(where, "tmp"))

    # ---- project files
    def files(self, cur):
        """Input files of a version: {relative path: text} and file lists"""
        vnum, brk = cur
        w = self.sc["versions"][vnum]
        flat = capworld.render(w)
        names = {"host": ["simhost.meta", "host_data.meta"],
                 "schemes": [s["name"] + ".meta" for s in w["schemes"]],
                 "suites": [s["name"] + ".xml" for s in w["suites"]]}
        if brk:
            done = breaks.apply(brk[0], random.Random(brk[1]), w, flat, names)
            if done is None:
                return None, None, None
            flat, names = done
            if names.pop("must_list", None) is not None and \
                    self.sc["mode"] in ("dir", "glob"):
                return None, None, None
        where = {}
        for key, lst in names.items():
            for n in lst:
                where[n] = key
                if n.endswith(".meta"):
                    where[n[:-5] + ".F90"] = key
        out = {}
        for n, text in flat.items():
            key = where.get(n)
            if key is None:
                key = "schemes" if not n.endswith(".xml") else "unused"
            out[key + "/" + n] = text
        args = {}
        mode = self.sc["mode"]
        for key, lst in names.items():
            # (a file may be named twice, lists may name lists, themselves too)
            way = (vnum + len(out)) % 4
            if mode == "files":
                args[key] = (", " if way == 1 else ",").join(
                    [f"{key}/{n}" for n in lst] +
                    ([f"{key}/./{lst[0]}"] if way == 2 else []))
            elif mode == "txt":
                half = len(lst) // 2 if way == 1 else len(lst)
                more = ["lists/more.txt"] if way == 1 else \
                    [f"../{key}/{lst[-1]}"] if way == 2 else []
                out[key + "/list.txt"] = "# files\n\n" + "\n".join(
                    lst[:half] + more) + "\n"
                out[key + "/lists/more.txt"] = "! others\n  ../" + \
                    "\n\t../".join(lst[half:] + ["list.txt"]) + " \n"
                args[key] = f"{key}/list.txt"
            elif mode == "dir":
                args[key] = key
            else:
                args[key] = f"{key}/*." + ("xml" if key == "suites" else
                                           "meta")
        return out, args, w

    @staticmethod
    def put(root, files):
        """Write the inputs"""
        for key in ("host", "schemes", "suites", "unused"):
            shutil.rmtree(os.path.join(root, key), ignore_errors=True)
        for name, text in files.items():
            path = os.path.join(root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fh:
                fh.write(text)

    def command(self, args, w, opts, extra=()):
        """The command line of capgen"""
        cmd = ["--host-files", args["host"], "--scheme-files",
               args["schemes"], "--suites", args["suites"],
               "--output-root", self.sc["outdir"],
               "--ccpp-datafile", self.sc["table"]]
        if self.sc["hostcap"]:
            cmd += ["--host-name", "simhost"]
        for k in KINDS:
            cmd += ["--kind-type", k]
        if w.get("debug"):
            cmd.append("--debug")
        if opts.get("force"):
            cmd.append("--force-overwrite")
        if opts.get("verbose"):
            cmd.append("--verbose")
        return cmd + style.directives(w.get("style")) + list(extra)

    def tool(self, root, script, args, plan):
        """Run a framework tool on simulated storage"""
        rep = os.path.join(self.where, "report.json")
        full = dict(plan, root=root, report=rep, scratch=self.where,
                    outdirs=[self.sc["outdir"].split("/")[0]])
        ppath = os.path.join(self.where, "plan.json")
        with open(ppath, "w") as fh:
            json.dump(full, fh)
        if os.path.exists(rep):
            os.unlink(rep)
        env = tool_env(plan.get("hashseed") or "0")
        env["TMPDIR"] = os.path.join(self.where, "tmp")
        code, out, err = run([sys.executable, "-s", SHIM, ppath,
                              os.path.join(REPO, "scripts", script)] + args,
                             root, 60, env)
        self.tools += 1
        fired = False
        try:
            with open(rep) as fh:
                got = json.load(fh)
                fired = got["fired"]
                if got["escaped"]:
                    self.res.fail("escaped", f"{self.at()} {script} would "
                                  "change files which are not its own: "
                                  f"{got['escaped'][:4]}")
        except (OSError, ValueError):
            pass
        if plan.get("fault"):
            flt = plan["fault"]
            if fired:
                self.res.stats[f"fault:{flt['cls']}:{flt['kind']}"] += 1
            else:
                self.res.stats["faults not reached"] += 1
        if plan.get("listing") is not None:
            self.res.stats["fault:listing order"] += 1
        if plan.get("clock"):
            self.res.stats["fault:clock"] += 1
        return code, out, err, fired

    def reference(self, cur):
        """What a run into an empty directory yields for this version"""
        key = json.dumps(cur)
        if key in self.refs:
            return self.refs[key]
        files, args, w = self.files(cur)
        shutil.rmtree(self.refd, ignore_errors=True)
        os.makedirs(self.refd)
        self.put(self.refd, files)
        code, out, err, _ = self.tool(self.refd, "ccpp_capgen.py",
                                      self.command(args, w, {}), {})
        ref = {"code": code, "files": {}, "err": out[-500:] + err[-1500:]}
        odir = os.path.join(self.refd, self.sc["outdir"])
        if os.path.isdir(odir):
            for rel in walk(odir):
                with open(os.path.join(odir, rel), "rb") as fh:
                    ref["files"][rel] = fh.read().replace(
                        self.refd.encode(), self.proj.encode())
        self.refs[key] = ref
        return ref

    # ---- steps
    def step(self, op):
        """Do one operation and check it"""
        getattr(self, "op_" + op[0])(*op[1:])
        self.seen.append([op[0], self.snap()])
        self.res.states.add(self.seen[-1][1])

    def snap(self):
        """Digest of the output directory"""
        odir = self.odir()
        if not os.path.isdir(odir):
            return "none"
        out = []
        for rel in walk(odir):
            with open(os.path.join(odir, rel), "rb") as fh:
                out.append([rel, hashlib.sha256(fh.read().replace(
                    self.where.encode(), b"")).hexdigest()])
        return digest(out)

    def odir(self):
        """The project's output directory"""
        return os.path.join(self.proj, self.sc["outdir"])

    def op_edit(self, vnum):
        """The developer moves to another version"""
        self.cur = (vnum, None)
        files, _, _ = self.files(self.cur)
        self.put(self.proj, files)

    def op_break(self, vnum, name, seed):
        """The developer makes a mistake"""
        cur = (vnum, (name, seed))
        files, _, _ = self.files(cur)
        if files is None:
            return
        self.cur = cur
        self.res.stats["fault:mistake " + name] += 1
        self.put(self.proj, files)

    def op_wipe(self):
        """Everything generated goes"""
        shutil.rmtree(os.path.join(self.proj, self.sc["outdir"].split("/")[0]),
                      ignore_errors=True)
        self.foreign = {}

    def op_foreign(self, name):
        """A file which is not capgen's appears in the output directory"""
        path = os.path.join(self.odir(), name)
        if os.path.exists(path):
            return
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fh:
            fh.write("mine: " + name + "\n")
        self.foreign[name] = stat(path)

    def op_tamper(self, kind, idx):
        """Something happens to a generated file"""
        odir = self.odir()
        if not os.path.isdir(odir):
            return
        if kind == "scratch":
            path = os.path.join(odir, SCRATCH, "ccpp_old_cap.F90")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fh:
                fh.write("stale\n")
            return
        mine = [f for f in walk(odir) if f not in self.foreign]
        if not mine:
            return
        path = os.path.join(odir, mine[idx % len(mine)])
        self.res.stats["fault:tamper " + kind] += 1
        if kind == "delete":
            os.unlink(path)
            return
        with open(path, "rb") as fh:
            data = fh.read()
        if kind == "truncate":
            data = data[:len(data) // 2]
        elif kind == "empty":
            data = b""
        elif kind == "samesize":
            data = data.replace(b"e", b"a", 1)
        else:
            data += b"! more\n"
        with open(path, "wb") as fh:
            fh.write(data)

    def inputs(self):
        """State of everything which is not capgen's"""
        out = {}
        for key in ("host", "schemes", "suites", "unused"):
            base = os.path.join(self.proj, key)
            if os.path.isdir(base):
                for rel in walk(base):
                    out[key + "/" + rel] = stat(os.path.join(base, rel))
        return out

    def outputs(self):
        """State of the output directory: {rel: (sha, inode, mtime)}"""
        odir = self.odir()
        if not os.path.isdir(odir):
            return {}
        return {rel: stat(os.path.join(odir, rel)) for rel in walk(odir)}

    def untouched(self, what, before_in):
        """The tool changed only what is its own"""
        if self.inputs() != before_in:
            self.res.fail("inputs-changed", f"{self.at()} {what} changed an "
                          "input file: " + str([
                              k for k, v in before_in.items()
                              if self.inputs().get(k) != v][:3]))
        now = self.outputs()
        for name, st in self.foreign.items():
            if now.get(name) != st:
                self.res.fail("foreign-file", f"{self.at()} {what} touched "
                              f"'{name}', which it did not make")

    def at(self):
        """Position in the history"""
        return f"step {self.num} ({self.sc['ops'][self.num]})"

    def op_run(self, opts, plan):
        """capgen"""
        if self.cur is None:
            return
        before_in = self.inputs()
        before = self.outputs()
        top = os.path.join(self.proj, self.sc["outdir"].split("/")[0])
        if self.sc["outdir"] == "gen/caps" and not os.path.isdir(top):
            pass
        _, args, w = self.files(self.cur)
        ref = self.reference(self.cur)
        data_before = {r: self.read(r) for r in before}
        code, out, err, fired = self.tool(
            self.proj, "ccpp_capgen.py", self.command(args, w, opts), plan)
        res = self.res
        res.stats["capgen runs"] += 1
        self.untouched("capgen", before_in)
        after = self.outputs()
        killed = plan.get("fault") and fired and \
            plan["fault"]["kind"] == "crash"
        diag = f"{self.at()}\nexit code {code}\n{out[-300:]}\n{err[-1200:]}"
        if code == -24:
            res.fail("hang", f"capgen did not end: {diag}")
            return
        if self.cur[1] and code == 0:
            res.fail("mistake-accepted-" + self.cur[1][0],
                     "capgen accepted inputs made inconsistent by "
                     f"'{self.cur[1][0]}': {diag}")
            return
        if code == 0:
            if ref["code"] != 0:
                res.fail("verdict", "accepted here, rejected into an empty "
                         f"directory: {diag}\n{ref['err']}")
                return
            self.complete(ref, before, after, opts, diag)
            self.partial = set()
            self.good = dict(ref, cur=self.cur)
            self.last_files = dict(ref["files"])
            return
        self.partial |= set(after) - set(before)
        if not fired and ref["code"] == 0:
            res.fail("verdict", "rejected here, accepted into an empty "
                     f"directory: {diag}")
            return
        if not killed and not err.strip() and not out.strip():
            res.fail("silent", f"failed without a word: {diag}")
        if self.cur[1] and not fired and "Traceback" in err and \
                not TOLD.search(err.rsplit("Traceback", 1)[1]):
            res.fail("mistake-traceback-" + self.cur[1][0],
                     f"an inconsistent input crashed capgen: {diag}")
        # what was there: complete old or complete new, nothing lost
        for rel, st in before.items():
            if rel.startswith(SCRATCH) or rel in self.foreign:
                continue
            now = after.get(rel)
            if now is not None and now[0] == st[0]:
                continue
            if rel == self.sc["table"]:
                # (the data table may be half written when storage fails)
                if fired:
                    continue
            if fired and now is not None and \
                    self.read(rel) == ref["files"].get(rel):
                continue
            res.fail("torn-output" if fired else "rejected-run-changed-output",
                     f"the failed run left '{rel}' "
                     + ("missing" if now is None else "neither old nor new")
                     + f": {diag}")
            return
        del data_before

    def read(self, rel):
        """Bytes of an output"""
        with open(os.path.join(self.odir(), rel), "rb") as fh:
            return fh.read()

    def complete(self, ref, before, after, opts, diag):
        """After success the directory is what it should be"""
        res = self.res
        for rel, data in ref["files"].items():
            if rel not in after:
                res.fail("missing-output", f"'{rel}' is missing after "
                         f"success: {diag}")
                return
            if self.read(rel) != data:
                res.fail("stale-output", f"'{rel}' is not what a run into an "
                         f"empty directory writes: {firstdiff(data, self.read(rel))} "
                         f"{diag}")
                return
        for rel in after:
            if rel not in ref["files"] and rel not in before:
                res.fail("extra-output", f"'{rel}' appeared: {diag}")
                return
        if os.path.isdir(os.path.join(self.odir(), SCRATCH)):
            res.fail("scratch-left", f"the staging directory is left: {diag}")
            return
        for rel in before:
            if rel not in after and not rel.startswith(SCRATCH):
                res.fail("output-removed", f"'{rel}' vanished: {diag}")
                return
        if before:
            for rel, data in ref["files"].items():
                if rel == self.sc["table"] or rel not in before:
                    continue
                same = before[rel][0] == after[rel][0]
                if same and not opts["force"] and before[rel] != after[rel]:
                    res.fail("unchanged-touched", f"'{rel}' was rewritten "
                             f"though it did not change: {diag}")
                    return
                if opts["force"] and before[rel][1:] == after[rel][1:]:
                    res.fail("force-ignored", f"'{rel}' was not rewritten "
                             f"by --force-overwrite: {diag}")
                    return
                res.stats["files compared with force" if opts["force"]
                          else "files kept" if same else
                          "files replaced"] += 1

    def op_clean(self, plan):
        """capgen --clean"""
        if self.cur is None:
            return
        before_in = self.inputs()
        before = self.outputs()
        _, args, w = self.files(self.cur)
        table = os.path.join(self.odir(), self.sc["table"])
        have = None
        if os.path.exists(table) and self.good:
            with open(table, "rb") as fh:
                if fh.read() == self.good["files"].get(self.sc["table"]):
                    have = self.good["files"]
        plan = {k: v for k, v in plan.items() if k != "fault"}
        code, out, err, _ = self.tool(
            self.proj, "ccpp_capgen.py", self.command(args, w, {},
                                                      ["--clean"]), plan)
        diag = f"{self.at()}\nexit code {code}\n{out[-300:]}\n{err[-1200:]}"
        self.res.stats["cleans"] += 1
        self.untouched("clean", before_in)
        after = self.outputs()
        if have is None:
            # no (usable) table: nothing else may go
            for rel in before:
                if rel not in after and rel not in self.last_files and \
                        rel not in self.partial:
                    self.res.fail("clean-too-much", f"clean removed '{rel}': "
                                  f"{diag}")
            return
        for rel in have:
            if rel in after:
                self.res.fail("clean-too-little", f"clean left '{rel}': "
                              f"{diag}")
                return
        for rel in before:
            if rel not in after and rel not in have:
                self.res.fail("clean-too-much", f"clean removed '{rel}', "
                              f"which the last run did not make: {diag}")
                return
        if code != 0:
            self.res.fail("clean-failed", diag)

    def op_damage(self, frac):
        """The data table loses its end"""
        path = os.path.join(self.odir(), self.sc["table"])
        if not os.path.exists(path):
            return
        with open(path, "rb") as fh:
            data = fh.read()
        data = data[:int(len(data) * frac * 0.999)]
        with open(path, "wb") as fh:
            fh.write(data)

    def op_query(self, report, pick, exclude, sep):
        """Ask the data table"""
        path = os.path.join(self.odir(), self.sc["table"])
        if not os.path.exists(path) or not self.good:
            return
        with open(path, "rb") as fh:
            data = fh.read()
        intact = data == self.good["files"].get(self.sc["table"])
        ended = data.rstrip().endswith(b"</ccpp_datatable>")
        if not intact and ended:
            return
        w = self.sc["versions"][self.good["cur"][0]]
        suite = w["suites"][pick % len(w["suites"])]["name"] \
            if pick % 7 else "no_such_suite"
        rel = os.path.join(self.sc["outdir"], self.sc["table"])
        cmd = [rel, "--" + report.replace("_", "-")]
        if report in tableref.BYSUITE:
            cmd.append(suite)
        if report == "show" and pick % 3:
            cmd += ["--line-wrap", str(20 + pick % 100), "--indent",
                    str(pick % 5)]
        cmd += ["--separator", sep]
        if exclude:
            cmd.append("--exclude-protected")
        before = self.outputs()
        code, out, err, _ = self.tool(self.proj, "ccpp_datafile.py", cmd, {})
        self.res.stats["queries"] += 1
        diag = f"{self.at()}\nexit code {code}\n{out[-600:]}\n{err[-1200:]}"
        if self.outputs() != before:
            self.res.fail("query-changed", f"a query changed files: {diag}")
        if not intact:
            if code == 0:
                self.res.fail("damaged-table-accepted",
                              f"a query of a truncated table succeeded: {diag}")
            return
        if code != 0:
            self.res.fail("query-failed", diag)
            return
        if report == "show":
            table = data.decode()
            self.res.stats["shown"] += 1
            if out.split() != tableref.shown(table):
                self.res.fail("wrong-show", f"--show prints something else "
                              f"than the table has: {diag}")
            bad = tableref.contents(w, table)
            if bad:
                self.res.fail("wrong-table", f"the table is wrong: {bad}\n"
                              f"{diag}")
            return
        want = tableref.answer(report, w, suite, exclude, self.sc, self.proj,
                               sorted(self.good["files"]))
        if want is None:
            return
        items = sorted(x for x in out.rstrip("\n").split(sep) if x)
        must, may = want
        lost = [x for x in must if items.count(x) < must.count(x)]
        more = [x for x in items if may is not None
                and items.count(x) > may.count(x)]
        if lost or more:
            sig = "wrong-answer-" + report
            if report in tableref.BYSUITE and not lost:
                mine = [s for s in w["suites"] if s["name"] == suite][0]
                if set(more) <= tableref.widened(w, mine):
                    sig = "widened-by-later-part"
            self.res.fail(sig, f"the data table says "
                          f"{items}\nbut {lost} should be there and {more} "
                          f"should not\n{diag}")


def walk(base):
    """Relative paths of all files below <base>"""
    out = []
    for root, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.relpath(os.path.join(root, f), base))
    return sorted(out)


def stat(path):
    """(digest, inode, time of last change) of a file"""
    st = os.stat(path)
    return (sha(path), st.st_ino, st.st_mtime_ns)


def firstdiff(want, got):
    """First lines which differ"""
    a = want.decode("utf-8", "replace").split("\n")
    b = got.decode("utf-8", "replace").split("\n")
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "(end)"
        y = b[i] if i < len(b) else "(end)"
        if x != y:
            return f"line {i + 1}: expected '{x[:150]}', found '{y[:150]}'"
    return "(same)"
