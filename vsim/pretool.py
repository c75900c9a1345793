"""ccpp_prebuild as a tool: a project directory lives through a seeded history
of edits, runs of ccpp_prebuild, clean-ups, queries and accidents on simulated
storage, and after every step is compared with what a run into an empty
directory yields and with what the world says."""
import json
import os
import random
import re
import shutil

from . import prebreaks, preworld
from .capsim import run
from .core import REPO, digest
from .presim import BASE, PreSim
from .toolsim import Play, ToolSim, firstdiff, stat, walk

FEAT = dict(BASE, style=0.0, slices=0.35, special=0.2, threads=0.1, suites2=0.4)
DOCS = ("CCPP_VARIABLES.html", "CCPP_VARIABLES.tex")
LISTS = ("TYPEDEFS", "SCHEMES", "CAPS")
# classes of storage operations: (weight, largest n)
OPS = {"open-r": (2, 60), "open-w": (4, 30), "write": (4, 50),
       "close": (4, 30), "replace": (5, 14), "remove": (5, 14),
       "mkdir": (1, 2), "any": (6, 300)}
# mistakes of which Python's own message is good enough
PLAIN = {"poor_config": r"^AttributeError: module 'config' has no attribute",
         "strange_loop": r"^ValueError: invalid literal .*'many'"}
CONF = {
    "P04": {"runs": 120, "weights": {"run": 5, "edit": 5, "tamper": 2,
                                    "wipe": 1, "foreign": 1}, "fault": 0.4,
            "ops": (5, 9), "versions": 3},
    "P05": {"runs": 100, "weights": {"run": 4, "edit": 3, "clean": 4,
                                    "foreign": 2}, "fault": 0.1,
            "ops": (6, 9), "versions": 3},
    "P06": {"runs": 200, "weights": {"run": 2, "break": 9, "edit": 2},
            "fault": 0.0, "ops": (9, 13), "versions": 2},
    "P07": {"runs": 120, "weights": {"run": 3, "edit": 4, "query": 5},
            "fault": 0.05, "ops": (7, 11), "versions": 3},
}


class PreToolSim(ToolSim):
    """Histories of ccpp_prebuild runs"""

    components_real = [
        "scripts/ccpp_prebuild.py, scripts/ccpp_track_variables.py and "
        "everything they import, each run in a process of its own",
        "make, sh and cmake reading the generated lists (P07)"]
    components_stub = [
        "storage (file operations intercepted: order of listings, clock of "
        "written files, the n-th operation fails, disk full, death of the "
        "process with data in flight torn)",
        "the shell command of --clean (rm, done by the simulator inside the "
        "scratch directory)"]
    rule = ("one run is one random project with several versions and a seeded "
            "history of edits, runs of ccpp_prebuild, faults and accidents; "
            "it counts when what it observed differs from every other run's")
    measure = "distinct digests of the build directory after a step"
    assumptions = [
        "an operation of the tool which the shim does not see (none known in "
        "the current tools) would not be failed"]

    def __init__(self, prop, tier="quick"):     # pylint: disable=W0231
        super(ToolSim, self).__init__(prop, tier)
        self.conf = CONF[prop]

    def generate(self, seed):
        rng = random.Random(seed)
        conf = self.conf
        # (the mistakes are made in files of the plain names)
        plain = {"mod2": 0, "sharefile": 0} if "break" in conf["weights"] \
            else {}
        versions = [preworld.Gen(rng, dict(FEAT, **plain)).world()]
        while len(versions) < conf["versions"]:
            w = rng.choice(versions)
            for _ in range(rng.choice([1, 1, 2, 4])):
                w = rng.choice(list(PreSim.smaller_worlds(w)) +
                               list(variants(rng, w)) * 2)
            versions.append(w)
        rng.shuffle(versions)
        sc = {"versions": versions, "outdir": "build", "table": "-",
              "ops": []}
        ops = sc["ops"]
        kinds = list(conf["weights"])
        wts = [conf["weights"][k] for k in kinds]
        ops.append(["edit", 0])
        if rng.random() < 0.8:
            ops.append(["run", self.opts(rng), self.plan(rng, 0.15)])
        for _ in range(rng.randint(*conf["ops"])):
            kind = rng.choices(kinds, wts)[0]
            if kind == "edit":
                ops.append(["edit", rng.randrange(len(versions))])
                if rng.random() < 0.7:
                    ops.append(["run", self.opts(rng),
                                self.plan(rng, conf["fault"])])
            elif kind == "run":
                ops.append(["run", self.opts(rng),
                            self.plan(rng, conf["fault"])])
                if ops[-1][2].get("fault") and rng.random() < 0.6:
                    ops.append(["run", self.opts(rng), self.plan(rng, 0)])
            elif kind == "break":
                ops.append(["break", rng.randrange(len(versions)),
                            rng.choice(sorted(prebreaks.BREAKS)),
                            rng.randrange(1000)])
                ops.append(["run", self.opts(rng), self.plan(rng, 0)])
                if rng.random() < 0.4:
                    ops.append(["edit", rng.randrange(len(versions))])
                    ops.append(["run", self.opts(rng), self.plan(rng, 0)])
            elif kind == "clean":
                ops.append(["clean", rng.random() < 0.3, self.plan(rng, 0)])
            elif kind == "foreign":
                ops.append(["foreign", rng.choice(
                    ["notes.txt", "caps/mine.F90", "caps/ccpp_cap_mine.F90",
                     "Makefile", "api/ccpp_static_api_mine.F90",
                     "CCPP_MINE.mk", "caps/ccpp_mine_cap.o"])])
            elif kind == "tamper":
                ops.append(["tamper", rng.choice(
                    ["delete", "truncate", "append", "empty", "samesize"]),
                    rng.randrange(30)])
            elif kind == "query":
                ops.append(["query", rng.randrange(1000), rng.random() < 0.1])
            else:
                ops.append([kind])
        if rng.random() < 0.5 or conf["fault"] > 0.3:
            ops.append(["edit", rng.randrange(len(versions))])
        ops.append(["run", self.opts(rng), self.plan(rng, 0)])
        if conf["weights"].get("query"):
            ops.append(["query", rng.randrange(1000), False])
        if conf["weights"].get("clean"):
            ops.append(["clean", False, self.plan(rng, 0)])
        return sc

    def opts(self, rng):
        """Options of a run"""
        return {"verbose": rng.random() < 0.15, "force": False,
                "default": rng.random() < 0.3}

    @staticmethod
    def plan(rng, pfault):
        """Storage of a run"""
        plan = {"hashseed": rng.choice(["0", str(rng.randrange(1, 4000))]),
                "listing": rng.choice([None, rng.randrange(1000)]),
                "clock": None}
        if rng.random() < 0.4:
            # (coarse clocks give files of two runs the same time)
            plan["clock"] = {"start": rng.choice(
                [0, 10 ** 18, 10 ** 18, 2 * 10 ** 18]),
                "tick": rng.choice([0, 0, 0, 10 ** 9, -10 ** 9])}
        if rng.random() < pfault:
            cls = rng.choices(list(OPS), [v[0] for v in OPS.values()])[0]
            if cls in ("write", "close", "open-w", "mkdir"):
                kind = rng.choice(["eio", "enospc", "crash", "crash"])
            elif cls == "any":
                kind = rng.choice(["crash", "crash", "crash", "eio"])
            else:
                kind = rng.choice(["eio", "eacces", "crash", "crash"])
            plan["fault"] = {"cls": cls, "kind": kind,
                             "n": rng.randint(1, OPS[cls][1]),
                             "cut": rng.choice([0, 0.3, 0.9, 1])}
        return plan

    def execute(self, scenario):
        from .core import Result
        res = Result()
        where = os.path.join(self.work, "t" + digest([scenario, os.getpid()]))
        os.makedirs(where)
        try:
            play = PrePlay(scenario, where, res)
            for num, op in enumerate(scenario["ops"]):
                play.num = num
                play.step(op)
                if res.violations:
                    break
            res.trace = digest(play.seen)
            res.stats["sim_time"] = play.tools
            res.nontrivial = play.tools > 0
        finally:
            if not os.environ.get("VSIM_KEEP"):
                shutil.rmtree(where, ignore_errors=True)
            else:
                print(where)
        return res

    def shrink(self, scenario):
        from .core import shrink_list
        for ops in shrink_list(scenario["ops"], 1):
            yield dict(scenario, ops=ops)
        for i, op in enumerate(scenario["ops"]):
            if op[0] in ("run", "clean"):
                plan = op[-1]
                for key, val in (("fault", None), ("listing", None),
                                 ("clock", None), ("hashseed", "0")):
                    if plan.get(key, val) != val:
                        ops = list(scenario["ops"])
                        ops[i] = op[:-1] + [dict(plan, **{key: val})]
                        yield dict(scenario, ops=ops)
                if op[0] == "run":
                    for key in ("verbose", "default"):
                        if op[1][key]:
                            ops = list(scenario["ops"])
                            ops[i] = ["run", dict(op[1], **{key: False}), plan]
                            yield dict(scenario, ops=ops)
        used = sorted({op[1] for op in scenario["ops"]
                       if op[0] in ("edit", "break")})
        if used and len(used) < len(scenario["versions"]):
            ops = [[op[0], used.index(op[1])] + op[2:]
                   if op[0] in ("edit", "break") else op
                   for op in scenario["ops"]]
            yield dict(scenario, ops=ops,
                       versions=[scenario["versions"][u] for u in used])
        for i, w in enumerate(scenario["versions"]):
            for cand in PreSim.smaller_worlds(w):
                vers = list(scenario["versions"])
                vers[i] = cand
                yield dict(scenario, versions=vers)

    def describe(self, scenario):
        return json.dumps({"suites": scenario["versions"][0]["suites"],
                           "ops": scenario["ops"]})[:1500]


def variants(rng, w):
    """Other edits: nothing is lost, something changes"""
    def copy():
        return json.loads(json.dumps(w))
    c = copy()
    c["debug"] = not c["debug"]
    yield c
    c = copy()
    g = rng.choice(rng.choice(c["suites"])["groups"])
    g["name"] = g["name"] + "b"
    yield c
    c = copy()
    s = rng.choice(c["schemes"])
    s["deps"] = rng.choice([n for n in range(4) if n != s["deps"]])
    yield c
    c = copy()
    cyc = rng.choice(rng.choice(rng.choice(c["suites"])["groups"])[
        "subcycles"])
    rng.shuffle(cyc["schemes"])
    cyc["loop"] = cyc["loop"] % 3 + 1
    yield c
    c = copy()
    phs = [ph for s in c["schemes"] for ph in s["phases"].values()]
    rng.shuffle(rng.choice(phs)["args"])
    yield c
    c = copy()
    rng.shuffle(c["schemes"])
    yield c
    c = copy()
    plain = [v for v in c["host"] if "isindex" not in v and "slice" not in v]
    v = rng.choice(plain)
    v["local"] = v["local"] + "n"
    yield c


class PrePlay(Play):
    """One project and its reference"""

    def files(self, cur):
        vnum, brk = cur
        w = self.sc["versions"][vnum]
        out = preworld.render(w, REPO)
        extra = []
        if brk:
            done = prebreaks.apply(brk[0], random.Random(brk[1]), w, out)
            if done is None:
                return None, None, None
            out, extra = done
        return out, extra, w

    @staticmethod
    def put(root, files):
        """Write the inputs (those which stay are not touched)"""
        os.makedirs(os.path.join(root, "build", "caps"), exist_ok=True)
        for rel in walk(root):
            if not rel.startswith("build/") and rel not in files:
                os.unlink(os.path.join(root, rel))
        for name, text in files.items():
            path = os.path.join(root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fh:
                fh.write(text)
        os.makedirs(os.path.join(root, "suites"), exist_ok=True)

    def command(self, args, w, opts, extra=()):
        cmd = ["--config=config.py"]
        if not opts.get("default"):
            cmd.append("--builddir=build")
        if w["debug"]:
            cmd.append("--debug")
        if opts.get("verbose"):
            cmd.append("--verbose")
        if w["namespace"]:
            cmd.append("--namespace=" + w["namespace"])
        if w["listed"]:
            legacy = {s["name"]: s["legacy"] for s in w["suites"]}
            cmd.append("--suites=" + ",".join(
                ("suite_" if legacy[n] else "") + n for n in w["listed"]))
        return cmd + list(args) + list(extra)

    def tool(self, root, script, args, plan):
        if script == "ccpp_capgen.py":
            script = "ccpp_prebuild.py"
        return super().tool(root, script, args, plan)

    def inputs(self):
        return {rel: stat(os.path.join(self.proj, rel))
                for rel in walk(self.proj) if not rel.startswith("build/")}

    def op_wipe(self):
        shutil.rmtree(self.odir(), ignore_errors=True)
        os.makedirs(os.path.join(self.odir(), "caps"))
        self.foreign = {}

    def op_run(self, opts, plan):
        """ccpp_prebuild"""
        if self.cur is None:
            return
        res = self.res
        before_in = self.inputs()
        before = self.outputs()
        _, args, w = self.files(self.cur)
        ref = self.reference(self.cur)
        code, out, err, fired = self.tool(
            self.proj, "ccpp_prebuild.py", self.command(args, w, opts), plan)
        res.stats["prebuild runs"] += 1
        self.untouched("ccpp_prebuild", before_in)
        after = self.outputs()
        diag = f"{self.at()}\nexit code {code}\n{out[-300:]}\n{err[-1200:]}"
        if code == -24:
            res.fail("hang", f"ccpp_prebuild did not end: {diag}")
            return
        if self.cur[1]:
            self.refused(code, before, after, out, err, diag)
            return
        if code == 0:
            if ref["code"] != 0:
                res.fail("verdict", "accepted here, rejected into an empty "
                         f"directory: {diag}\n{ref['err']}")
                return
            self.finished(w, ref, before, after, diag)
            self.good = dict(ref, cur=self.cur)
            self.partial = set()
            return
        self.partial |= set(after) - set(before)
        if not fired:
            res.fail("verdict", "rejected here, " + (
                "accepted into an empty directory" if ref["code"] == 0 else
                "although consistent") + f": {diag}")
            return
        if plan["fault"]["kind"] != "crash" and not err.strip() and \
                not out.strip():
            res.fail("silent", f"failed without a word: {diag}")

    def refused(self, code, before, after, out, err, diag):
        """A mistake must be refused"""
        name = self.cur[1][0]
        if code == 0:
            self.res.fail("mistake-accepted-" + name, "ccpp_prebuild accepted "
                          f"inputs made inconsistent by '{name}': {diag}")
            return
        last = err[err.rfind("Traceback (most"):] if "Traceback" in err else ""
        said = re.search(r"^(ERROR|CRITICAL): ", err, re.M) or re.search(
            r"^([\w.]+\.)?(Exception|CCPPError|ParseSyntaxError|"
            r"ParseContextError|ParseInternalError|FileNotFoundError|"
            r"ParseError): .", last, re.M)
        if not said and name in PLAIN:
            said = re.search(PLAIN[name], last, re.M)
        if not said:
            self.res.fail("mistake-traceback-" + name, "an inconsistent input "
                          f"crashed ccpp_prebuild: {diag}")
            return
        for rel, st in before.items():
            base = os.path.basename(rel)
            # What was written before the mistake was noticed
            if rel in DOCS or rel.endswith((".tmp", ".test")) or \
                    base.endswith("_cap.F90") or \
                    base.startswith(("CCPP_TYPEDEFS.", "CCPP_SCHEMES.")):
                continue
            if after.get(rel, [None])[0] != st[0]:
                self.res.fail("rejected-run-changed-output", "the refused run "
                              f"changed '{rel}': {diag}")
                return

    def finished(self, w, ref, before, after, diag):
        """After success the directory is what it should be"""
        res = self.res
        for rel, data in ref["files"].items():
            if rel not in after:
                res.fail("missing-output", f"'{rel}' is missing after "
                         f"success: {diag}")
                return
            if self.read(rel) != data:
                res.fail("stale-output", f"'{rel}' is not what a run into an "
                         "empty directory writes: "
                         f"{firstdiff(data, self.read(rel))} {diag}")
                return
        for rel in after:
            if rel not in ref["files"] and rel not in before:
                res.fail("extra-output", f"'{rel}' appeared: {diag}")
                return
        for rel in before:
            if rel not in after and not rel.endswith((".test", ".tmp")):
                res.fail("output-removed", f"'{rel}' vanished: {diag}")
                return
        same = {rel for rel in ref["files"] if rel in before and
                before[rel][0] == after[rel][0]}
        keep = {r for r in same if r not in DOCS}
        for s in preworld.called(w):
            cap = f"caps/ccpp_{s['name']}_cap.F90"
            if not all(f"caps/ccpp_{s['name']}_{g['name']}_cap.F90" in same
                       for g in s["groups"] + preworld.special(s)):
                keep.discard(cap)
        code = [r for r in ref["files"] if r.endswith(".F90")]
        if not set(code) <= same:
            keep -= {r for r in keep if r.startswith(("api/", "CCPP_API"))}
        for rel in sorted(keep):
            if before[rel] != after[rel]:
                res.fail("unchanged-touched", f"'{rel}' was rewritten though "
                         f"it did not change: {diag}")
                return
            res.stats["files kept"] += 1
        want = {"caps/" + c for c in preworld.caps(w)}
        want |= {f"CCPP_{k}.{e}" for k in LISTS + ("API",)
                 for e in ("mk", "cmake", "sh")} - {"CCPP_API.mk"}
        want |= set(DOCS) | {f"api/{preworld.api(w)}.F90"}
        if set(ref["files"]) != want:
            res.fail("wrong-files", "a run into an empty directory wrote "
                     f"{sorted(set(ref['files']) - want)} and not "
                     f"{sorted(want - set(ref['files']))}: {diag}")

    def op_clean(self, default, plan):    # pylint: disable=arguments-differ
        """ccpp_prebuild --clean"""
        if self.cur is None or self.cur[1]:
            return
        res = self.res
        before_in = self.inputs()
        before = self.outputs()
        _, args, w = self.files(self.cur)
        plan = {k: v for k, v in plan.items() if k != "fault"}
        code, out, err, _ = self.tool(
            self.proj, "ccpp_prebuild.py", self.command(
                args, w, {"default": default}, ["--clean"]), plan)
        diag = f"{self.at()}\nexit code {code}\n{out[-300:]}\n{err[-1200:]}"
        res.stats["cleans"] += 1
        self.untouched("clean", before_in)
        after = self.outputs()
        if code != 0:
            res.fail("clean-failed", diag)
            return
        apis = {f"api/ccpp_static_api{n}.F90" for n in ("", "_aux")}
        mine = re.compile(r"caps/ccpp_.*_cap\.F90$|CCPP_(TYPEDEFS|SCHEMES|"
                          r"CAPS|API)\.(mk|cmake|sh)$|CCPP_VARIABLES\.")
        api = f"api/{preworld.api(w)}.F90"
        for rel in before:
            own = mine.match(rel) or rel == api
            if own and rel in after:
                res.fail("clean-too-little", f"clean left '{rel}': {diag}")
                return
            if not own and rel not in after:
                res.fail("clean-too-much", f"clean removed '{rel}': {diag}")
                return
        del apis

    # ---- what the lists and tables say
    def op_query(self, pick, partial):    # pylint: disable=arguments-differ
        """The build system reads the lists; somebody tracks a variable"""
        if self.cur is None or not self.good or self.cur[1] or \
                self.good["cur"] != self.cur:
            return
        for rel, data in self.good["files"].items():
            path = os.path.join(self.odir(), rel)
            if not os.path.exists(path) or self.read(rel) != data:
                return
        w = self.sc["versions"][self.cur[0]]
        if pick % 3 == 0:
            self.lists(w)
        elif pick % 3 == 1:
            self.docs(w)
        else:
            self.track(w, random.Random(pick), partial)

    def want(self, w):
        """What the lists hold"""
        names = preworld.names_called(w)
        phys = {f"{self.proj}/{preworld.scheme_file(s)}.F90"
                for s in w["schemes"] if s["name"] in names}
        phys |= {f"{self.proj}/{dep}" for s in w["schemes"]
                 if s["name"] in names for dep in preworld.dep_files(s)}
        phys |= {f"{self.proj}/{dep}" for dep in preworld.hostdeps(w)}
        phys |= {REPO + "/src/ccpp_types.F90"}
        phys |= {f"{self.proj}/{f}" for f in preworld.host_files(w)}
        caps = preworld.caps(w)
        types = {"ccpp_kinds.mod", "ccpp_types.mod"}
        if w["ddt"] or w.get("inter") or w["mode"] == "block":
            types.add("host_data.mod")
        return {"TYPEDEFS": sorted(types), "SCHEMES": sorted(phys),
                "CAPS": sorted(f"{self.odir()}/caps/{c}" for c in caps),
                "API": [f"{self.odir()}/api/{preworld.api(w)}.F90"]}

    def lists(self, w):
        """make, sh and cmake read the lists"""
        want = self.want(w)
        got = {}
        mkf = "\n".join(f"include {self.odir()}/CCPP_{k}.mk" for k in LISTS)
        mkf += "\nall:\n" + "".join(
            f"\t@echo '{k}' $({v})\n" for k, v in (
                ("TYPEDEFS", "TYPEDEFS"), ("CAPS", "CAPS_F90"),
                ("SCHEMES", "SCHEMES_F90"), ("other", "SCHEMES_F"),
                ("other", "SCHEMES_f"), ("other", "SCHEMES_f90")))
        path = os.path.join(self.where, "Makefile")
        with open(path, "w") as fh:
            fh.write(mkf)
        got["make"] = run(["make", "-s", "-f", path, "all"], self.where, 60)
        sh = "".join(f". {self.odir()}/CCPP_{k}.sh\n"
                     for k in LISTS + ("API",))
        sh += "".join(f'echo {k} "${v}" | tr ";" " "\n' for k, v in (
            ("TYPEDEFS", "CCPP_TYPEDEFS"), ("SCHEMES", "CCPP_SCHEMES"),
            ("CAPS", "CCPP_CAPS"), ("API", "CCPP_STATIC_API")))
        got["sh"] = run(["sh", "-e", "-c", sh], self.where, 60)
        cm = "".join(f"include({self.odir()}/CCPP_{k}.cmake)\n"
                     for k in LISTS + ("API",))
        cm += "".join(f'string(REPLACE ";" " " X "${{{k}}}")\n'
                      f'message("{k} ${{X}}")\n' for k in LISTS + ("API",))
        path = os.path.join(self.where, "lists.cmake")
        with open(path, "w") as fh:
            fh.write(cm)
        got["cmake"] = run(["cmake", "-P", path], self.where, 60)
        for who, (code, out, err) in got.items():
            self.res.stats["lists read by " + who] += 1
            if who == "cmake":
                out = err
            if code != 0:
                self.res.fail("list-unusable", f"{self.at()} {who} cannot "
                              f"read the lists: {err[-800:]}")
                return
            seen = {}
            for line in out.split("\n"):
                words = line.split()
                if words:
                    seen.setdefault(words[0], []).extend(words[1:])
            for key in seen:
                if sorted(seen[key]) != want.get(key, []):
                    self.res.fail("wrong-list", f"{self.at()} {who} reads "
                                  f"{key} = {seen[key]}, not "
                                  f"{want.get(key, [])}")
                    return
            if set(seen) - {"other"} != set(want) - (
                    {"API"} if who == "make" else set()):
                self.res.fail("wrong-list", f"{self.at()} {who} reads only "
                              f"{sorted(seen)}")
                return

    def docs(self, w):
        """The tables of variables"""
        html = self.read(DOCS[0]).decode()
        rows = re.findall(r"<tr>\n(.*?)</tr>", html, re.S)[1:]
        got = {}
        for row in rows:
            cells = [c.strip() for c in re.findall(r">(.*?)</td>", row)]
            got.setdefault(cells[0], []).append(cells)
        tex = self.read(DOCS[1]).decode()
        parts = dict(re.findall(
            r"\\hypertarget\{([^}]*)\}(.*?)\\end\{samepage\}", tex, re.S))
        names = preworld.names_called(w)
        asked = {}
        for s in w["schemes"]:
            if s["name"] in names:
                for ph in s["phases"].values():
                    for a in ph["args"]:
                        asked.setdefault(a["std"], set()).add(
                            f"{s['name']}_{ph['spell']}")
        self.res.stats["tables of variables"] += 1
        for v in w["host"]:
            if v.get("own", 1) != 1:
                continue
            v = dict(v, std=preworld.plain(v["std"]),
                     local=v.get("member", v["local"]))
            row = got.get(v["std"], [])
            if len(row) != 1:
                self.res.fail("wrong-table", f"{self.at()} {v['std']} has "
                              f"{len(row)} rows in {DOCS[0]}")
                return
            want = [v["units"], str(len(v["dims"])), v["type"], v["kind"]]
            if v["local"] not in row[0][7] and "slice" not in v or \
                    row[0][1] != "the " + v["std"]:
                self.res.fail("wrong-table", f"{self.at()} {DOCS[0]} says "
                              f"{row[0]} of {v['std']} ({v['local']})")
                return
            if row[0][2:6] != want:
                self.res.fail("wrong-table", f"{self.at()} {DOCS[0]} says "
                              f"{row[0][2:6]} of {v['std']}, not {want}")
                return
            text = parts.get(v["std"])
            if text is None:
                self.res.fail("wrong-table", f"{self.at()} {v['std']} is not "
                              f"in {DOCS[1]}")
                return
            mat = re.search(r"requested .*?vtop\{(.*)\}\} ", text)
            subs = set(mat.group(1).replace("\\_", "_").split(
                "\\newline ")) if mat else set()
            subs.discard("NOT REQUESTED")
            # (routines of schemes which no suite calls may be named)
            wrong = {x for x in asked.get(v["std"], set()) if x not in subs}
            if wrong:
                self.res.fail("wrong-table", f"{self.at()} {DOCS[1]} says "
                              f"that {v['std']} is requested by "
                              f"{sorted(subs)}, not by {sorted(wrong)}")
                return

    def track(self, w, rng, partial):
        """Which schemes of a suite use a variable?"""
        if any("/" in s.get("file", "") for s in w["schemes"]):
            return      # (the tool looks in one directory)
        s = rng.choice(w["suites"])
        stds = sorted({a["std"] for sch in w["schemes"]
                       for ph in sch["phases"].values() for a in ph["args"]})
        std = rng.choice(stds + ["ccpp_error_code", "no_such_quantity"])
        if partial:
            std = std[:-2]
        name = ("suite_" if s["legacy"] and w["listed"] else "") + s["name"]
        sdf = f"suites/{name}.xml"
        code, out, err, _ = self.tool(
            self.proj, "ccpp_track_variables.py",
            ["-s", sdf, "-m", "physics", "-c", "config.py", "-v", std], {})
        self.res.stats["variables tracked"] += 1
        diag = f"{self.at()}\nexit code {code}\n{out[-600:]}\n{err[-1200:]}"
        if code != 0:
            self.res.fail("track-failed", diag)
            return
        want = []
        for g in s["groups"]:
            uses = []
            for cyc in g["subcycles"]:
                for scheme in cyc["schemes"] * cyc["loop"]:
                    sch = preworld.scheme(w, scheme)
                    for ph in sch["phases"].values():
                        its = [a["intent"] for a in ph["args"]
                               if a["std"] == std]
                        if std == "ccpp_error_code":
                            its = ["out"]
                        uses += [f"{scheme}_{ph['spell']} (intent {i})"
                                 for i in its]
            if uses:
                want += [f"In group {g['name']}"] + uses
        got = [ln.strip() for ln in out.split("\n") if ln.strip()]
        if want:
            head = [ln for ln in got if ln.startswith("For suite ")]
            if len(head) != 1 or std not in head[0]:
                self.res.fail("wrong-track", f"no heading: {diag}")
                return
            got = got[got.index(head[0]) + 1:]
            if got != want:
                self.res.fail("wrong-track", f"{std}: the report is {got}, "
                              f"not {want}: {diag}")
            return
        if any(re.search(r"\(intent \w+\)", ln) for ln in got):
            self.res.fail("wrong-track", f"nothing uses {std}: {diag}")
        elif "not found" not in err + out:
            self.res.fail("wrong-track", "nothing is said about "
                          f"{std}: {diag}")
