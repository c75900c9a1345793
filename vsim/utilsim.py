"""The tools which stand alone: prototypes of metadata from sources, HTML
tables from metadata, the comparison of metadata with sources.  A tree of
sources and metadata lives through a seeded history of edits, mistakes and tool
runs on simulated storage."""
import hashlib
import html.parser
import json
import os
import random
import re
import shutil

from . import breaks, capworld, style
from .capsim import consistent, shrink_world
from .core import REPO, digest, shrink_list
from .toolsim import FEAT, Play, ToolSim, stat, walk

TOOLS = {"proto": "ccpp_fortran_to_metadata.py", "html": "metadata2html.py",
         "config": "metadata2html.py",
         "check": "fortran_tools/offline_check_fortran_vs_metadata.py"}
OPS = {"open-r": (4, 12), "open-w": (4, 8), "write": (5, 150),
       "close": (3, 8), "mkdir": (1, 1), "any": (4, 200)}
CONF = {
    "X01": {"runs": 160, "weights": {"proto": 6, "edit": 3}, "fault": 0.2,
            "ops": (4, 7), "style": 0.7},
    "X02": {"runs": 400, "weights": {"html": 5, "config": 3, "edit": 2},
            "fault": 0.25, "ops": (4, 8), "style": 0.5},
    "X03": {"runs": 400, "weights": {"check": 3, "break": 5, "edit": 2},
            "fault": 0.1, "ops": (5, 8), "style": 0.5},
}
# mistakes which the comparison of metadata with sources has to see
SEEN = ("source_missing", "host_source_type", "host_source_rank",
        "host_source_behind_parts", "source_order", "source_lacks_argument",
        "meta_lacks_argument", "source_type", "source_kind", "source_intent",
        "source_rank", "source_optional", "source_alone_optional",
        "source_lacks_phase", "argument_twice", "standard_name_twice",
        "table_type_unknown", "garbage_line", "unknown_property", "optional_property",
        "source_message_length", "source_declared_twice",
        "source_listed_twice", "no_standard_name", "no_units", "no_type",
        "no_intent", "no_dimensions", "bad_standard_name", "bad_units",
        "bad_type", "bad_intent", "bad_dimensions", "meta_cut",
        "scheme_twice", "host_twice", "host_not_compiled", "host_local_twice",
        "ddt_twice", "slice_too_many", "dependencies_none")
LONG = ["mass of things", "p < 10 & q > 2", "it's \"quoted\" here",
        "where t<tmin&p>pmin", "{braces}", "x_y  z", "100%", "", "", "", "(1/2)*rho*v**2",
        "caf\u00e9"]
SEPS = ["", "", "########", "; ----", "#"]
ATTRS = ["local_name", "standard_name", "long_name", "units", "type",
         "dimensions", "kind", "intent"]


def readmeta(text):
    """Tables of plain metadata: [[name, type, sections]], a section is
    [name, type, variables], a variable a dictionary with 'local_name'"""
    out = []
    cur = None
    for line in text.splitlines():
        line = line.strip()
        if not line or line[0] in "#;":
            continue
        if line == "[ccpp-table-properties]":
            cur = {}
            out.append([cur, []])
            continue
        if line == "[ccpp-arg-table]":
            cur = {}
            out[-1][1].append([cur, []])
            continue
        got = re.match(r"\[\s*(.*?)\s*\]$", line)
        if got:
            cur = {"local_name": got.group(1)}
            out[-1][1][-1][1].append(cur)
            continue
        for part in (line.split(" | ") if not
                     line.startswith("long_name") else [line]):
            key, _, val = part.partition("=")
            cur[key.strip()] = val.strip()
    return [[props.get("name"), props.get("type"),
             [[sec.get("name"), sec.get("type"), vrs] for sec, vrs in secs]]
            for props, secs in out]


def dimlist(val):
    """Dimensions of a variable without their first indices being one"""
    val = val.strip().lstrip("(").rstrip(")")
    out = [d.strip().lower() for d in val.split(",") if d.strip()]
    return [re.sub(r"^(ccpp_constant_one|1):", "", d) for d in out]


class Rows(html.parser.HTMLParser):
    """The rows of the only table of a page, and its title"""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.rows = []
        self.title = ""
        self.open = []
        self.bad = None
        self.feed(text)
        self.close()
        if self.open:
            self.bad = f"left open: {self.open}"

    def handle_starttag(self, tag, attrs):
        if tag == "meta":
            return
        if tag not in ("html", "head", "title", "body", "table", "tr", "td",
                       "th"):
            self.bad = f"unexpected <{tag}>"
        self.open.append(tag)
        if tag == "tr":
            self.rows.append([])
        elif tag in ("td", "th"):
            self.rows[-1].append("")

    def handle_endtag(self, tag):
        if not self.open or self.open.pop() != tag:
            self.bad = f"unexpected </{tag}>"

    def handle_data(self, data):
        if self.open and self.open[-1] in ("td", "th"):
            self.rows[-1][-1] += data
        elif self.open and self.open[-1] == "title":
            self.title += data


class UtilSim(ToolSim):
    """Histories of the stand-alone tools"""

    components_real = [
        "scripts/ccpp_fortran_to_metadata.py, scripts/metadata2html.py, "
        "scripts/fortran_tools/offline_check_fortran_vs_metadata.py and "
        "everything they import, each run in a process of its own"]
    components_stub = [
        "storage (file operations intercepted: order of listings, clock of "
        "written files, the n-th operation fails, disk full, death of the "
        "process with data in flight torn)"]
    rule = ("one run is one random tree of sources and metadata in several "
            "versions and a seeded history of edits, mistakes, tool runs and "
            "faults; it counts when what it observed differs from every other "
            "run's")
    measure = "distinct digests of what the tools wrote or said after a step"

    def __init__(self, prop, tier="quick"):
        # pylint: disable=super-init-not-called
        super(ToolSim, self).__init__(prop, tier)
        self.conf = CONF[prop]

    # ---- scenario
    def generate(self, seed):
        rng = random.Random(seed)
        conf = self.conf
        feat = dict(FEAT, consts=0.15, explicit=0.6, dimargs=0.6)
        versions = [capworld.Gen(rng, feat).world()]
        if rng.random() < 0.6:
            cands = list(shrink_world(versions[0])) + \
                list(self.variants(rng, versions[0]))
            versions.append(rng.choice(cands))
        for i, w in enumerate(versions):
            if rng.random() < conf["style"]:
                # (the hooks of prototypes stand behind all declarations)
                # (and a style has long names of its own)
                without = ("fixed", "defs", "mlong" if self.prop == "X02" else "")
                versions[i] = dict(w, style=style.draw(rng, without))
        sc = {"versions": versions, "deep": rng.randrange(1000),
              "long": rng.randrange(1000), "ops": [["edit", 0]]}
        ops = sc["ops"]
        kinds = list(conf["weights"])
        wts = [conf["weights"][k] for k in kinds]
        for _ in range(rng.randint(*conf["ops"])):
            ops.append(self.oneop(rng, rng.choices(kinds, wts)[0],
                                  len(versions)))
            if ops[-1][0] == "break":
                ops.append(self.oneop(rng, "check", 0))
        ops.append(self.oneop(rng, kinds[0], 0))
        ops[-1][-1].pop("fault", None)
        return sc

    def oneop(self, rng, kind, nver):
        """One step"""
        if kind == "edit":
            return ["edit", rng.randrange(nver)]
        if kind == "break":
            return ["break", rng.randrange(nver), rng.choice(SEEN),
                    rng.randrange(1000)]
        plan = self.plan(rng, self.conf["fault"])
        if kind == "proto":
            return [kind, {"pick": rng.randrange(1000),
                           "mode": rng.choice(["files", "files", "txt", "dir",
                                               "glob"]),
                           "sep": rng.choice(SEPS),
                           "root": rng.choice(["out", "out", "new/er", None]),
                           "defs": rng.random() < 0.2}, plan]
        if kind == "html":
            return [kind, {"pick": rng.randrange(1000),
                           "root": rng.choice(["out", "doc/html"])}, plan]
        if kind == "config":
            return [kind, {"pick": rng.randrange(1000),
                           "build": rng.random() < 0.5}, plan]
        return [kind, {"dir": rng.choice([".", ".", "schemes", "host"]),
                       "debug": rng.random() < 0.2}, plan]

    @staticmethod
    def plan(rng, pfault):
        """Storage of a run"""
        plan = ToolSim.plan(rng, 0)
        if rng.random() < pfault:
            cls = rng.choices(list(OPS), [v[0] for v in OPS.values()])[0]
            kind = rng.choice(["eio", "eacces", "crash"] if cls == "open-r"
                              else ["eio", "enospc", "crash"])
            num = rng.randint(1, OPS[cls][1])
            if rng.random() < 0.4:
                num = rng.randint(1, 4)
            plan["fault"] = {"cls": cls, "kind": kind, "n": num,
                             "cut": rng.choice([0, 0.3, 0.9, 1])}
        return plan

    @staticmethod
    def player(scenario, where, res):
        """Plays one scenario"""
        return UtilPlay(scenario, where, res)

    # ---- shrinking
    def shrink(self, scenario):
        for ops in shrink_list(scenario["ops"], 1):
            yield dict(scenario, ops=ops)
        for i, op in enumerate(scenario["ops"]):
            if op[0] not in TOOLS:
                continue
            plan = op[-1]
            for key, val in (("fault", None), ("listing", None),
                             ("clock", None), ("hashseed", "0")):
                if plan.get(key, val) != val:
                    ops = list(scenario["ops"])
                    ops[i] = op[:-1] + [dict(plan, **{key: val})]
                    yield dict(scenario, ops=ops)
        for i, w in enumerate(scenario["versions"]):
            if w.get("style"):
                vers = list(scenario["versions"])
                vers[i] = {k: v for k, v in w.items() if k != "style"}
                yield dict(scenario, versions=vers)
                for opts in shrink_list(w["style"]["opts"], 0):
                    vers = list(scenario["versions"])
                    vers[i] = dict(w, style=dict(w["style"], opts=opts))
                    yield dict(scenario, versions=vers)
            for cand in shrink_world(w):
                if consistent(cand):
                    vers = list(scenario["versions"])
                    vers[i] = cand
                    yield dict(scenario, versions=vers)

    def describe(self, scenario):
        return json.dumps({"suites": scenario["versions"][0]["suites"],
                           "style": scenario["versions"][0].get("style"),
                           "ops": scenario["ops"]})[:1500]


class UtilPlay(Play):
    """One tree and what the tools should say about it"""

    def __init__(self, scenario, where, res):
        super().__init__(dict(scenario, outdir="out", table="none", mode="files",
                              hostcap=True), where, res)
        self.said = None

    def longnames(self, name, text):
        """Metadata with long names"""
        rng = random.Random(f"{self.sc['long']} {name}")
        out = []
        for line in text.splitlines():
            out.append(line)
            if line.strip().startswith("standard_name"):
                long = rng.choice(LONG)
                if long:
                    out.append(f"  long_name = {long}")
        return "\n".join(out) + "\n"

    def place(self, name):
        """Where a pair of files is"""
        rng = random.Random(f"{self.sc['deep']} {name.split('.')[0]}")
        return rng.choice(["", "", "a/", "a/b/", "B.c/d/"])

    def files(self, cur):
        vnum, brk = cur
        w = self.sc["versions"][vnum]
        raw = capworld.render({k: v for k, v in w.items() if k != "style"})
        raw = {n: t for n, t in raw.items()
               if not n.startswith(("simbox", "simaux"))}
        raw = {n: self.longnames(n, t) if n.endswith(".meta") else t
               for n, t in raw.items()}
        flat = style.apply(raw, w["style"]) if w.get("style") else raw
        names = {"host": ["simhost.meta", "host_data.meta"],
                 "schemes": [s["name"] + ".meta" for s in w["schemes"]],
                 "suites": [s["name"] + ".xml" for s in w["suites"]]}
        if brk:
            done = breaks.apply(brk[0], random.Random(brk[1]), w, dict(flat),
                                names)
            if done is None:
                return None, None, None
            flat, names = done
        out = {}
        for n, text in flat.items():
            if n.endswith(".xml"):
                continue
            key = "host" if n.startswith(("simhost", "host_data")) \
                else "schemes"
            out[f"{key}/{self.place(n)}{n}"] = text
        return out, raw, w

    def inputs(self):
        out = {}
        for key in ("host", "schemes"):
            base = os.path.join(self.proj, key)
            for rel in walk(base):
                out[key + "/" + rel] = stat(os.path.join(base, rel))
        return out

    def outputs(self):
        out = {}
        for rel in walk(self.proj):
            if not rel.startswith(("host/", "schemes/")) and \
                    not rel.endswith("/list.txt"):
                out[rel] = stat(os.path.join(self.proj, rel))
        return out

    def snap(self):
        """Digest of what was said and written"""
        out = [self.said]
        for rel in sorted(self.outputs()):
            with open(os.path.join(self.proj, rel), "rb") as fh:
                out.append([rel, hashlib.sha256(fh.read().replace(
                    self.where.encode(), b"")).hexdigest()])
        return digest(out)

    def run(self, kind, args, plan):
        """Run a tool; None: it ended as it has to where storage failed"""
        res = self.res
        before_in = self.inputs()
        before = self.outputs()
        code, out, err, fired = self.tool(self.proj, TOOLS[kind], args, plan)
        res.stats[f"runs of {kind}"] += 1
        diag = (f"{self.at()} {TOOLS[kind]} {' '.join(args)}\n"
                f"exit code {code}\n{out[-300:]}\n{err[-1200:]}")
        self.said = digest([code, out.replace(self.where, "")])
        if self.inputs() != before_in:
            res.fail("inputs-changed", f"the tool changed its inputs: {diag}")
            return None
        if code == -24:
            res.fail("hang", f"the tool did not end: {diag}")
            return None
        if code != 0 and fired:
            if plan["fault"]["kind"] != "crash" and \
                    not err.strip() and not out.strip():
                res.fail("silent", f"failed without a word: {diag}")
            return None
        return code, out, err, fired, before, diag

    # ---- prototypes
    def op_proto(self, opts, plan):
        """ccpp_fortran_to_metadata"""
        if self.cur is None:
            return
        res = self.res
        files, raw, w = self.files(self.cur)
        # (the tool knows no hooks of a host's interface)
        srcs = sorted(f for f in files if re.search(r"\.(F90|F)$", f) and
                      not os.path.basename(f).startswith("simhost."))
        rng = random.Random(opts["pick"])
        mode = opts["mode"]
        if mode == "dir":
            arg = rng.choice(sorted({os.path.dirname(f) for f in srcs}))
            want = [f for f in srcs if os.path.dirname(f) == arg]
        elif mode == "glob":
            arg = rng.choice(sorted({os.path.dirname(f) for f in srcs}))
            want = [f for f in srcs if os.path.dirname(f) == arg
                    and f.endswith(".F90")]
            arg += "/*.F90"
        else:
            want = rng.sample(srcs, rng.randint(1, len(srcs)))
            arg = ",".join(want)
            if mode == "txt":
                with open(os.path.join(self.proj, "host/list.txt"), "w") as fh:
                    fh.write("# files\n\n" + "\n".join(
                        "../" + f for f in want) + "\n")
                arg = "host/list.txt"
        if not want:
            return
        args = [arg]
        root = ""
        if opts["root"]:
            root = opts["root"] + "/"
            args += ["--output-root", opts["root"]]
        if opts["sep"]:
            args += ["--section-separator", opts["sep"]]
        if opts["defs"]:
            args += ["--preproc-directives", "DEFINED_ELSEWHERE=1,OTHER"]
        got = self.run("proto", args, plan)
        if got is None:
            return
        code, _, _, _, before, diag = got
        if code != 0:
            res.fail("proto-refused", f"no prototypes of correct sources: "
                     f"{diag}")
            return
        after = self.outputs()
        made = {root + re.sub(r"\.[^.]*$", ".meta", os.path.basename(f)): f
                for f in want}
        for rel in after:
            if rel not in made and not rel.endswith("simhost.meta") and before.get(rel) != after[rel]:
                res.fail("proto-other-file", f"'{rel}' appeared or changed: "
                         f"{diag}")
                return
        for rel, src in made.items():
            if rel not in after:
                res.fail("proto-missing", f"no '{rel}': {diag}")
                return
            with open(os.path.join(self.proj, rel)) as fh:
                text = fh.read()
            hand = raw[os.path.basename(re.sub(r"\.[^.]*$", ".meta", src))]
            bad = self.compare_proto(text, hand, opts["sep"]) or \
                self.extents(text, w)
            if bad:
                res.fail(bad[0], f"{rel}: {bad[1]}: {diag}\n{text[:1500]}")
                return
            res.stats["prototypes compared"] += 1
        self.usable(made, w)

    def compare_proto(self, text, hand, sep):
        """A prototype against the metadata written by hand"""
        if sep and sep not in text.splitlines() and \
                text.count("[ccpp-") > 1:
            return "proto-separator", f"no separator '{sep}'"
        try:
            mine = readmeta(text)
        except (IndexError, TypeError, AttributeError) as exc:
            return "proto-unreadable", f"not metadata ({exc!r})"
        want = readmeta(hand)
        ptab = [(n.lower(), t) for n, t, _ in mine]
        wtab = [(n.lower(), t) for n, t, _ in want]
        if sorted(ptab) != sorted(wtab):
            return "proto-tables", f"tables {sorted(ptab)}, not {sorted(wtab)}"
        for name, typ, secs in want:
            got = [s for n, _, ss in mine if n.lower() == name.lower()
                   for s in ss]
            gnames = sorted((n.lower(), t) for n, t, _ in got)
            wnames = sorted((n.lower(), t) for n, t, _ in secs)
            if gnames != wnames:
                return "proto-sections", f"{name}: {gnames}, not {wnames}"
            for sname, _, wvars in secs:
                gvars = next(v for n, _, v in got
                             if n.lower() == sname.lower())
                bad = self.compare_vars(sname, typ, gvars, wvars)
                if bad:
                    return bad
        names = [v["standard_name"] for _, _, ss in mine for _, _, vs in ss
                 for v in vs]
        if len(set(names)) != len(names):
            return "proto-names", "a standard name is used twice"
        for _, _, secs in mine:
            for sname, _, vrs in secs:
                own = {v["standard_name"] for v in vrs}
                for v in vrs:
                    for d in dimlist(v.get("dimensions", "")):
                        if (set(d.split(":")) & set(names)) - own:
                            return "proto-dimension", (
                                f"{sname}, {v['local_name']}: dimension {d} "
                                "is of another table")
        return None

    @staticmethod
    def extents(text, w):
        """An extent which is an argument's name has its standard name"""
        secs = {n.lower(): vrs for _, _, ss in readmeta(text)
                for n, _, vrs in ss}
        for s in w["schemes"]:
            for ph in s["phases"].values():
                vrs = secs.get(f"{s['name']}_{ph['spell']}".lower())
                std = {v["local_name"].lower(): v["standard_name"]
                       for v in vrs or ()}
                dims = {v["local_name"].lower(): v.get("dimensions", "")
                        for v in vrs or ()}
                for a in ph["args"] if vrs else ():
                    want = capworld.bounds(ph, a)
                    if not a["dims"] or want[1] == ":":
                        continue
                    want = [std[d.lower()] for d in dimlist(want)]
                    got = dimlist(dims[a["local"].lower()])
                    if got != want:
                        return "proto-extent", (f"{s['name']}, {a['local']}: "
                                                f"{got}, not {want}")
        return None

    @staticmethod
    def compare_vars(sname, typ, gvars, wvars):
        """Variables of one table"""
        gnames = [v["local_name"].lower() for v in gvars]
        # (a table of a module may leave some out, and name parts of arrays)
        wnames = [v["local_name"].lower() for v in wvars
                  if "(" not in v["local_name"]]
        if typ == "scheme" and gnames != wnames:
            return "proto-arguments", f"{sname}: {gnames}, not {wnames}"
        for v in wvars:
            if "(" in v["local_name"]:
                continue
            name = v["local_name"].lower()
            if gnames.count(name) != 1:
                return "proto-variable", f"{sname}: {name} in {gnames}"
            g = gvars[gnames.index(name)]
            for key in ("type", "kind", "intent", "optional"):
                x, y = g.get(key, ""), v.get(key, "")
                if key == "optional":
                    x, y = "true" in x.lower(), "true" in y.lower()
                elif key == "type":
                    x, y = x.lower(), y.lower()
                elif key == "kind":
                    x, y = [z.lower().replace(" ", "") for z in (x, y)]
                if x != y:
                    return f"proto-{key}", f"{sname}, {name}: {x}, not {y}"
            if len(dimlist(g.get("dimensions", ""))) != \
                    len(dimlist(v.get("dimensions", ""))):
                return "proto-rank", (f"{sname}, {name}: "
                                      f"{g.get('dimensions')}, not "
                                      f"{v.get('dimensions')}")
            # a dimension is not another variable's name
            std = {x["standard_name"]: x["local_name"] for x in gvars}
            for d in dimlist(g.get("dimensions", "")):
                for part in d.split(":"):
                    loc = std.get(part)
                    if loc and gvars[gnames.index(loc.lower())]["type"] != \
                            "integer":
                        return "proto-dimension", (f"{sname}, {name}: "
                                                   f"dimension {loc}")
        return None

    def usable(self, made, w):
        """The checker accepts the prototypes"""
        res = self.res
        tree = os.path.join(self.where, "u")
        shutil.rmtree(tree, ignore_errors=True)
        os.makedirs(tree)
        for rel, src in made.items():
            shutil.copy(os.path.join(self.proj, rel), tree)
            shutil.copy(os.path.join(self.proj, src), tree)
        code, out, err, _ = self.tool(tree, TOOLS["check"],
                                      ["--directory", tree], {})
        if code != 0 or "All checks passed!" not in out:
            res.fail("proto-unlike-source", f"{self.at()} the prototypes do "
                     f"not pass the comparison with the sources: {err[-1500:]}")
        shutil.rmtree(tree, ignore_errors=True)

    # ---- HTML
    def op_html(self, opts, plan):
        """metadata2html of one file"""
        if self.cur is None:
            return
        files, raw, _ = self.files(self.cur)
        metas = sorted(f for f in files if f.endswith(".meta"))
        name = random.Random(opts["pick"]).choice(metas)
        os.makedirs(os.path.join(self.proj, opts["root"]), exist_ok=True)
        got = self.run("html", ["-m", name, "-o", opts["root"]], plan)
        if got:
            self.pages(got, opts["root"], [raw[os.path.basename(name)]])

    def op_config(self, opts, plan):
        """metadata2html of the files of a configuration"""
        if self.cur is None:
            return
        files, raw, _ = self.files(self.cur)
        metas = sorted(f for f in files if f.endswith(".meta"))
        rng = random.Random(opts["pick"])
        metas = rng.sample(metas, rng.randint(1, len(metas)))
        host = [f for f in metas if f.startswith("host/")]
        root = "out/html" if opts["build"] else "html"
        conf = {"VARIABLE_DEFINITION_FILES": host,
                "SCHEME_FILES": [f for f in metas if f not in host]}
        text = "".join(f"{k} = {[re.sub('meta$', 'F90', f) for f in v]!r}\n"
                       for k, v in conf.items())
        text += ("DEFAULT_BUILD_DIR = 'build'\n"
                 f"METADATA_HTML_OUTPUT_DIR = '{{build_dir}}/{root}'\n")
        os.makedirs(os.path.join(self.proj, root), exist_ok=True)
        with open(os.path.join(self.proj, "sim_config.py"), "w") as fh:
            fh.write(text)
        got = self.run("config", ["--config", "sim_config.py"], plan)
        if got:
            with open(os.path.join(REPO, "src", "ccpp_types.meta")) as fh:
                own = fh.read()
            self.pages(got, root, [raw[os.path.basename(f)] for f in metas] +
                       [own])

    def pages(self, got, root, metas):
        """The pages show what the metadata says"""
        res = self.res
        code, _, _, _, before, diag = got
        if code != 0:
            res.fail("html-refused", f"no pages of correct metadata: {diag}")
            return
        after = self.outputs()
        want = {}
        for text in metas:
            for _, _, secs in readmeta(text):
                for name, typ, vrs in secs:
                    if vrs:
                        want[name.lower()] = (name, typ, vrs)
        have = {os.path.basename(r)[:-5].lower(): r for r in after
                if os.path.dirname(r) == root and r.endswith(".html")}
        for rel in after:
            if before.get(rel) != after[rel] and (
                    os.path.dirname(rel) != root or
                    os.path.basename(rel)[:-5].lower() not in want):
                res.fail("html-other-file", f"'{rel}' appeared or changed: "
                         f"{diag}")
                return
        for key, (name, typ, vrs) in want.items():
            if key not in have:
                res.fail("html-missing", f"no page of {name}: {diag}")
                return
            with open(os.path.join(self.proj, have[key]),
                      encoding="utf-8") as fh:
                text = fh.read()
            bad = self.compare_page(text, name, typ, vrs)
            if bad:
                res.fail("html-content", f"page of {name}: {bad}: {diag}\n"
                         f"{text[:1500]}")
                return
            res.stats["pages compared"] += 1

    @staticmethod
    def compare_page(text, name, typ, vrs):
        """One page"""
        page = Rows(text)
        if page.bad:
            return page.bad
        if name.lower() not in page.title.lower():
            return f"its title is '{page.title}'"
        if not page.rows or page.rows[0] != ATTRS:
            return f"its head is {page.rows[:1]}"
        if len(page.rows) - 1 != len(vrs):
            return f"{len(page.rows) - 1} rows for {len(vrs)} variables"
        for row, v in zip(page.rows[1:], vrs):
            if len(row) != len(ATTRS):
                return f"row {row}"
            for key, cell in zip(ATTRS, row):
                val = v.get(key, "")
                if key == "dimensions":
                    val, cell = dimlist(val), dimlist(cell)
                elif key == "long_name":
                    if not val:
                        continue
                elif key == "kind":
                    if not val and (cell.lower() in
                                    ("", "n/a", v["type"].lower())):
                        continue
                elif key == "intent":
                    val = val or "n/a"
                    if typ != "scheme":
                        continue
                if key not in ("dimensions", "long_name", "units"):
                    val = re.sub(r"\s", "", val.lower())
                    cell = re.sub(r"\s", "", cell.lower())
                if val != cell:
                    return f"{v['local_name']}: {key} {cell!r}, not {val!r}"
        return None

    # ---- comparison with the sources
    def op_check(self, opts, plan):
        """offline_check_fortran_vs_metadata"""
        if self.cur is None:
            return
        res = self.res
        args = ["--directory", opts["dir"]]
        if opts["debug"]:
            args.append("--debug")
        got = self.run("check", args, plan)
        if got is None:
            return
        code, out, _, fired, before, diag = got
        if self.outputs() != before:
            res.fail("check-wrote", f"the comparison wrote files: {diag}")
            return
        passed = "All checks passed!" in out
        if (code == 0) != passed:
            res.fail("check-verdict", f"exit code and message differ: {diag}")
            return
        if fired and passed and plan["fault"]["cls"] == "open-r":
            res.fail("check-unread", f"passed without reading a file: {diag}")
            return
        if self.cur[1] is None:
            if not passed:
                res.fail("check-refused", f"a consistent tree is refused: "
                         f"{diag}")
            return
        name = self.cur[1][0].split("_")[0]
        where = {"host": "host", "source": "schemes"}.get(name, ".")
        if passed and opts["dir"] in (".", where):
            res.fail("check-accepted-" + self.cur[1][0],
                     f"'{self.cur[1][0]}' passed the comparison: {diag}")
