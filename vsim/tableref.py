"""What a project says about itself, from the world alone: the answers of the
data table's reports and of the generated introspection routines."""
import os

from . import capworld
from .core import REPO

REPORTS = ["host_files", "suite_files", "utility_files", "ccpp_files",
           "process_list", "module_list", "dependencies", "suite_list",
           "required_variables", "input_variables", "output_variables",
           "host_variables", "show"]
BYSUITE = ("required_variables", "input_variables", "output_variables")
ERRORS = {"ccpp_error_message", "ccpp_error_code"}
HLOOP = {"horizontal_loop_begin", "horizontal_loop_end"}


def parts_of(w, suite):
    """(part, phase, schemes in order) of everything a suite calls"""
    used = set(capworld.names_in(suite))
    out = []
    for ph in capworld.PHASES:
        if ph == "run":
            for g in suite["groups"]:
                out.append((g["name"], "run", [
                    n for n in capworld.names_in({"groups": [g]})
                    if "run" in capworld.scheme(w, n)["phases"]], g))
        else:
            out.append((ph, ph, [
                s["name"] for s in w["schemes"] if s["name"] in used
                and ph in s["phases"]], None))
    return out


def part_flow(w, suite):
    """[(phase, {standard name: intent towards the host}, names which may be
    there besides)] for every part of a suite, in the order of the suite"""
    host = {v["std"]: v for v in w["host"]}
    out = []
    for _, phase, names, group in parts_of(w, suite):
        mine, may = {}, set()
        for n in names:
            for a in capworld.scheme(w, n)["phases"][phase]["args"]:
                for d in a["dims"]:
                    may.add(capworld.STDDIM[d])
                    if d == "H":
                        may |= HLOOP
                if a.get("dimarg"):
                    if a["dimarg"] == "H" and phase == "run":
                        may |= HLOOP
                    else:
                        mine.setdefault(a["std"], set()).add("in")
                elif "const" in a or "whole" in a:
                    # (kept by the host part of the framework, which has a
                    # value already)
                    if a["intent"] == "out":
                        may.add(a["std"])
                    mine.setdefault(a["std"], set()).add(a["intent"])
                elif a["std"] in host:
                    mine.setdefault(a["std"], set()).add(a["intent"])
                    if host[a["std"]]["active"]:
                        may |= capworld.active_names(
                            host[a["std"]]["active"])
            dyn = capworld.scheme(w, n)["phases"][phase].get("dyn")
            if dyn:
                mine.setdefault(dyn["std"], set()).add("out")
        if group is not None:
            for std in capworld.loops_in({"groups": [group]}):
                mine.setdefault(std, set()).add("in")
        out.append((phase, {std: ints.pop() if len(ints) == 1 else "inout"
                            for std, ints in mine.items()}, may))
    return out


def traffic(w, suite):
    """What flows between host and suite: {standard name: intents} where an
    intent is that of one part of the suite (in, out, inout), and the set of
    names which may be there besides (sizes, flags)"""
    sizes = {capworld.STDDIM[d] for d in "HLIE"}
    flow, may = {}, set(ERRORS)
    for _, mine, extra in part_flow(w, suite):
        may |= extra
        for std, intent in mine.items():
            flow.setdefault(std, set()).add(intent)
    return flow, may | (sizes & set(flow))


def widened(w, suite):
    """Names whose intent in a part of <suite> becomes inout because a later
    part of the project uses them differently (known finding: the list of all
    interfaces of a phase changes the first interface it meets)"""
    out, first, bad = set(), {}, set()
    for s in w["suites"]:
        for i, (phase, mine, _) in enumerate(part_flow(w, s)):
            for std, intent in mine.items():
                owner, was = first.setdefault((phase, std),
                                              ((s["name"], i), intent))
                if was != intent and was != "inout":
                    bad.add((owner[0], std))
    for name, std in bad:
        if name == suite["name"]:
            out.add(std)
    return out


def variables(w, suite, which, exclude):
    """(must, may) of a suite's variables: which = any, input, output"""
    flow, may = traffic(w, suite)
    want = {"any": ("in", "out", "inout"), "input": ("in", "inout"),
            "output": ("out", "inout")}[which]
    sizes = {capworld.STDDIM[d] for d in "HLIE"}
    must = {std for std, ints in flow.items()
            if any(i in want for i in ints)}
    if which == "output":
        may = set(ERRORS)
    if which != "input":
        must |= ERRORS
    elif which == "input":
        may -= ERRORS
    if exclude:
        must -= sizes
        may -= sizes | HLOOP
    return must, must | may


def processes(w):
    """process=scheme of all schemes in the suites"""
    used = {n for s in w["suites"] for n in capworld.names_in(s)}
    return sorted(f"{s['process']}={s['name']}" for s in w["schemes"]
                  if s["name"] in used and "process" in s
                  and any(ph.get("process") for ph in s["phases"].values()))


def depends(w, sc, proj):
    """Paths of all files which the tables name as dependencies"""
    out = set()
    tables = [("schemes", s.get("deps")) for s in w["schemes"]]
    ddt = any(v["in_ddt"] for v in w["host"])
    tables += [("host", d) for t, d in w.get("deps", {}).items()
               if ddt or t != "host_state_t"]
    for where, deps in tables:
        if deps and deps["files"][0].lower() != "none":
            for f in deps["files"]:
                out.add(os.path.abspath(os.path.join(
                    proj, where, deps["rel"] or "", f)))
    return sorted(out)


def shown(table):
    """The words which --show prints for an XML table"""
    import xml.etree.ElementTree as ET
    out = []

    def walk(elem):
        inner = len(elem) > 0 or elem.text
        out.extend((f"<{elem.tag}" + "".join(
            f" {k}={v}" for k, v in elem.attrib.items())
            + (">" if inner else " />")).split())
        for sub in elem:
            walk(sub)
        if inner:
            out.extend((elem.text or "").split())
            out.append(f"</{elem.tag}>")
    walk(ET.fromstring(table))
    return out


def contents(w, table):
    """What an XML table says of suites and schemes which is not so"""
    import xml.etree.ElementTree as ET
    root = ET.fromstring(table)
    bad = []
    # the suites
    sel = {s.get("name"): s for s in root.findall("api/suites/suite")}
    if sorted(sel) != sorted(s["name"] for s in w["suites"]):
        return [f"suites {sorted(sel)}"]

    def tree(elem):
        out = []
        for e in elem:
            if e.tag == "scheme":
                if "run" in capworld.scheme(w, e.get("name"))["phases"]:
                    out.append(e.get("name"))
            elif e.tag == "subcycle":
                loop = e.get("loop")
                out.append([int(loop) if loop.isdigit() else "?", tree(e)])
            else:
                out += tree(e)
        return out

    def plain(items):
        return [it if isinstance(it, str) else
                [it["loop"] if isinstance(it["loop"], int) else "?",
                 plain(it["items"])]
                for it in items
                if not isinstance(it, str)
                or "run" in capworld.scheme(w, it)["phases"]]
    schemes = []
    for s in w["suites"]:
        elem = sel[s["name"]]
        if os.path.basename(elem.get("filename")) != s["name"] + ".xml":
            bad.append(f"file of suite {s['name']}: {elem.get('filename')}")
        gel = {g.get("name"): g for g in elem.findall("group")}
        for g in s["groups"]:
            name = f"{s['name']}_{g['name']}"
            if name not in gel:
                bad.append(f"no group {name}")
                continue
            got = tree(gel.pop(name))
            if got != plain(g["items"]):
                bad.append(f"group {name}: {got} is not {plain(g['items'])}")
        runs = [g for g in gel.values() if g.get("phase") == "run"]
        if runs:
            bad.append(f"more groups: {[g.get('name') for g in runs]}")
        for part, phase, names, group in parts_of(w, s):
            if group is None:
                got = sorted({e.get("name") for g in gel.values()
                              if g.get("phase") == phase
                              for e in g.iter("scheme")
                              if phase in capworld.scheme(
                                  w, e.get("name"))["phases"]})
                if got != sorted(names):
                    bad.append(f"phase {phase} of {s['name']}: {got} "
                               f"is not {sorted(names)}")
            tag = phase if group is None else f"{s['name']}_{part}"
            for n in names:
                ph = capworld.scheme(w, n)["phases"][phase]
                args = {(a["std"].lower(), a["intent"]) for a in ph["args"]}
                args |= {(e, "out") for e in ERRORS}
                if "dyn" in ph:
                    args = None
                schemes.append((n, tag, f"{n}_{ph['spell']}", args))
    # the schemes
    found = []
    for e in root.findall("schemes/scheme"):
        for p in e:
            found.append((e.get("name"), p.tag, p.get("subroutine_name"),
                          p.get("module"),
                          {(v.get("name").lower(), v.get("intent"))
                           for v in p.iter("var")}))
    for n, tag, sub, args in schemes:
        mine = [f for f in found if f[:4] == (n, tag, sub, n)]
        if not mine:
            bad.append(f"no entry {tag} of scheme {n}")
        elif args is not None and any(f[4] != args for f in mine):
            bad.append(f"arguments of {n} in {tag}: {mine[0][4] ^ args}")
    known = {(n, tag) for n, tag, _, _ in schemes}
    for f in found:
        if (f[0], f[1]) not in known:
            bad.append(f"an entry {f[1]} of scheme {f[0]} which is not there")
    return bad


def answer(report, w, suite, exclude, sc, proj, files):
    """(must, may): the list a report has to give (None: not decided)"""
    odir = os.path.join(proj, sc["outdir"])
    kinds = [os.path.join(odir, "ccpp_kinds.F90")]
    util = kinds + [os.path.join(REPO, "src", f) for f in (
        "ccpp_constituent_prop_mod.F90", "ccpp_hashable.F90",
        "ccpp_hash_table.F90")]
    host = [os.path.join(odir, f) for f in files
            if f == "simhost_ccpp_cap.F90"]
    suites = [os.path.join(odir, f) for f in files
              if f.endswith("_cap.F90") and f != "simhost_ccpp_cap.F90"]
    exact = {"host_files": host, "suite_files": suites,
             "utility_files": util, "ccpp_files": util + host + suites,
             "process_list": processes(w), "dependencies": depends(w, sc, proj),
             "suite_list": [s["name"] for s in w["suites"]]}
    if report in exact:
        return exact[report], exact[report]
    if report == "module_list":
        used = {n for s in w["suites"] for n in capworld.names_in(s)}
        mods = sorted(n for n in used
                      if "run" in capworld.scheme(w, n)["phases"])
        return mods, sorted(used)
    if report == "host_variables":
        sizes = {capworld.STDDIM[d] for d in "HLIE"} | HLOOP
        # (members of a derived type are listed under their instance)
        must = {v["std"] for v in w["host"] if not v["in_ddt"]} | ERRORS
        if w["ddt"] and any(v["in_ddt"] for v in w["host"]):
            must.add("host_state_instance")
        if w.get("sizes"):
            must.add("host_sizes_instance")
        if not exclude:
            must |= sizes - {capworld.STDDIM[d] for d in w.get("sizes", "")}
        return sorted(must), None
    for s in w["suites"]:
        if s["name"] == suite and report in BYSUITE:
            must, may = variables(w, s, {"required_variables": "any",
                                         "input_variables": "input",
                                         "output_variables": "output"}
                                  [report], exclude)
            return sorted(must), sorted(may)
    return None
