"""Random worlds for the simulation of ccpp_prebuild: a host model whose data
lie in module variables, in a derived type, in arrays used chunk by chunk or in
blocks; scheme stubs; suites; and the reference interpreter which says what
every call of the static API must do.  Written from the documented contract;
nothing of the framework is imported."""
import os

from . import capworld, style
from .capref import Arr, Ref
from .capworld import (CONV, FAMS, UNITS, WORDS, active_names, active_text,
                       active_value, fill_value)

# phases as the stubs' common code names them -> as prebuild does
PHASES = ["initialize", "timestep_initial", "run", "timestep_final",
          "finalize"]
PHNUM = capworld.PHNUM
SPELL = {"initialize": "init", "timestep_initial": "timestep_init",
         "run": "run", "timestep_final": "timestep_finalize",
         "finalize": "finalize"}
STDDIM = {"H": "horizontal_dimension", "L": "vertical_layer_dimension",
          "E": "number_of_things", "Z": "vertical_layer_dimension"}
HOSTDIM = {"H": "ncols", "L": "pver", "E": "nthings", "Z": "pver"}
SHAPES = [["H", "L"], ["H", "L"], ["H"], ["H"], ["H", "Z"], ["H", "L", "E"],
          ["L"], [], [], ["H", "E"]]
# what ccpp_t holds of which a scheme may ask
SPECIAL = {"ccpp_loop_counter": "index", "ccpp_loop_extent": "count",
           "ccpp_thread_number": "index", "ccpp_thread_count": "index",
           "ccpp_instance": "index"}
NAMES = ["sch_a", "sch_b", "rad_init_ice", "finalizer", "snow_run_off",
         "timestep_initial_mix", "mix", "mix_more", "sch_run_c", "d1"]
FAIL = "ccpp-says"


class Gen:
    """Draws a world"""

    def __init__(self, rng, feat):
        self.rng = rng
        self.feat = feat
        self.used = set()

    def chance(self, name):
        """A feature's coin"""
        return self.rng.random() < self.feat.get(name, 0)

    def stdname(self, tail=""):
        """A new standard name"""
        r = self.rng
        while True:
            name = f"{r.choice(WORDS)}_{r.choice(WORDS)}_v{r.randint(1, 99)}"
            if name + tail not in self.used:
                self.used.add(name + tail)
                return name + tail

    def world(self):
        """A world"""
        r = self.rng
        ncol = r.randint(3, 7)
        w = {"mode": r.choices(["chunk", "block", "plain"], [5, 3, 1])[0],
             "dims": {"L": r.randint(2, 3), "E": r.randint(1, 2)},
             "threads": self.chance("threads"), "debug": self.chance("debug"),
             "namespace": r.choice(["", "", "aux"]),
             "thrds": r.randint(1, 3), "insts": r.choice([1, 1, 2, 3]),
             "ddt": self.chance("ddt"), "late": r.random() < 0.5,
             # how the inputs are laid out: a type within the host's type,
             # a second module of the host, several schemes in one file,
             # options of the command line
             "inner": self.chance("layout"), "mod2": self.chance("mod2"),
             # a type of which every thread has an instance of its own
             "inter": self.chance("inter"),
             "verbose": r.random() < 0.15, "nodir": r.random() < 0.2}
        if w["threads"] and w["mode"] == "plain":
            w["mode"] = "chunk"
        w["dims"]["H"] = ncol
        w["dims"]["Z"] = w["dims"]["L"] + 1
        ends = [ncol]
        if w["mode"] != "plain":
            ends = sorted(r.sample(range(1, ncol), r.randint(
                1, min(3, ncol - 1)))) + [ncol]
        starts = [1] + [e + 1 for e in ends[:-1]]
        w["chunks"] = [[b, e] for b, e in zip(starts, ends)]
        self.host(w)
        self.schemes(w)
        self.suites(w)
        self.files(w)
        if self.chance("style"):
            w["style"] = style.draw(r, PLAINER)
        return w

    def host(self, w):
        """The host's variables"""
        r = self.rng
        w["host"] = []
        flags = []
        for i in range(r.randint(1, 3)):
            num = r.random() < 0.3
            v = {"std": self.stdname("_flag" if not num else "_option"),
                 "local": f"hf_{i}", "type": "integer" if num else "logical",
                 "kind": "", "units": "1", "dims": [], "active": None,
                 "in_ddt": self.in_ddt(w), "top": False}
            v["mod2"] = w["mod2"] and not v["in_ddt"] and r.random() < 0.5
            v["isloop" if num else "isflag"] = True
            flags.append(v)
        w["host"] += flags
        for i in range(r.randint(*self.feat["nvars"])):
            dims = list(r.choice(SHAPES))
            typ = r.choices(["real", "integer", "logical", "character"],
                            [7, 2, 1, 1])[0]
            if typ in ("logical", "character"):
                dims = []
            if typ == "integer":
                dims = dims[:2]
            fam = UNITS[r.choice(FAMS)] if typ == "real" else {"1": (1, 0)}
            kind = ""
            if typ == "real":
                kind = r.choice(["kind_phys"] * 4 + ["kind_sp"])
            elif typ == "character":
                kind = "len=8"
            v = {"std": self.stdname(), "local": f"hv_{i}", "type": typ,
                 "kind": kind,
                 "units": r.choice(sorted(fam)) if typ == "real" else
                 "none" if typ == "character" else "1",
                 "dims": dims, "active": None, "in_ddt": self.in_ddt(w),
                 "top": False}
            if self.chance("active"):
                v["active"] = self.condition(w, flags)
            v["mod2"] = w["mod2"] and not v["in_ddt"] and \
                r.random() < 0.5 and not blocked(w, v)
            if w["inter"] and not blocked(w, v) and r.random() < 0.35:
                v.update(in_ddt="inter", mod2=False)
                w["host"] += [dict(v, std=f"{v['std']}#{t}", own=t,
                                   member=v["local"],
                                   local=f"{v['local']}_t{t}")
                              for t in range(1, w["thrds"] + 1)]
                continue
            w["host"].append(v)
        self.slices(w)

    def in_ddt(self, w):
        """Is a new variable in the host's derived type?"""
        if not w["ddt"] or self.rng.random() < 0.5:
            return False
        return "inner" if w["inner"] and self.rng.random() < 0.5 else True

    def files(self, w):
        """Which schemes share a source file, or are in a directory"""
        r = self.rng
        for s in w["schemes"]:
            s["file"] = s["name"]
            if self.chance("sharefile"):
                s["file"] = r.choice(["mods", "more/all"])
            elif self.chance("sharefile"):
                s["file"] = "more/" + s["name"]

    def slices(self, w):
        """Variables which are slices of a bigger array"""
        r = self.rng
        w["parents"] = []
        if not self.chance("slices"):
            return
        n = r.randint(2, 3)
        first = r.random() < 0.2 and w["mode"] != "block"
        p = {"std": self.stdname("_array"), "local": "tracers", "type": "real",
             "kind": "kind_phys", "units": "kg kg-1", "dims": ["H", "L"],
             "num": n, "in_ddt": self.in_ddt(w), "first": first}
        w["parents"].append(p)
        for k in r.sample(range(1, n + 1), r.randint(1, n)):
            ix = {"std": f"index_of_tracer_{k}", "local": f"ix_{k}",
                  "type": "integer", "kind": "", "units": "index", "dims": [],
                  "active": None, "in_ddt": self.in_ddt(w), "top": False,
                  "isindex": k}
            v = {"std": self.stdname("_tracer"), "local": f"hs_{k}",
                 "type": "real", "kind": "kind_phys", "units": "kg kg-1",
                 "dims": ["H", "L"], "active": None, "in_ddt": p["in_ddt"],
                 "top": False,
                 "slice": {"parent": "tracers", "index": ix["std"], "num": k,
                           "first": first}}
            w["host"] += [ix, v]

    def condition(self, w, flags):
        """When a variable is there"""
        r = self.rng

        def atom():
            v = r.choice(flags)
            if v.get("isflag"):
                return v["std"] if r.random() < 0.7 else ["not", v["std"]]
            return ["cmp", r.choice(["==", "/=", "<", ">", "<=", ">="]),
                    v["std"], r.randint(0, 2)]
        if r.random() < 0.3:
            return [r.choice(["and", "or"]), atom(), atom()]
        return atom()

    def schemes(self, w):
        """The schemes and their arguments"""
        r = self.rng
        w["schemes"] = []
        names = r.sample(NAMES, r.randint(*self.feat["nschemes"]))
        for n, name in enumerate(names):
            phases = {}
            for i, p in enumerate(PHASES):
                if r.random() < (0.85 if p == "run" else
                                 self.feat.get("phases", 0.45)):
                    phases[p] = {"spell": SPELL[p], "base": n * 5 + i,
                                 "args": self.args(w, p)}
            if not phases:
                phases["run"] = {"spell": "run", "base": n * 5,
                                 "args": self.args(w, "run")}
            w["schemes"].append({"name": name, "phases": phases,
                                 "deps": r.choice([0, 0, 0, 0, 0, 1, 2, 3]),
                                 "common": r.random() < 0.1,
                                 "rel": r.choice(["", "", "lib", "../lib"]),
                                 "lines": r.random() < 0.5})
        w["hostdeps"] = r.choice([0, 0, 0, 1, 2])

    def args(self, w, phase):
        """The arguments of a stub"""
        r = self.rng
        out = []
        pool = list(w["host"])
        r.shuffle(pool)
        most = 1 if self.chance("few") else self.feat["nargs"]
        for v in pool[:r.randint(0, most)]:
            if "isindex" in v and r.random() < 0.7:
                continue
            if v.get("own") and (phase != "run" or v["own"] != 1):
                continue
            if w["mode"] == "block" and phase != "run" and v["dims"] and \
                    v["dims"][0] == "H" and not self.chance("deblock"):
                continue
            intent = r.choice(["in", "in", "out", "inout", "inout"])
            if v.get("isflag") or v.get("isloop") or "isindex" in v:
                intent = "in"
            if w["threads"] and phase == "run" and v["dims"][:1] != ["H"] \
                    and not v.get("own"):
                intent = "in"
            units = v["units"]
            if v["type"] == "real" and self.chance("units"):
                opts = [u for fam in UNITS if units in fam for u in fam
                        if frozenset((u, units)) in CONV]
                if opts:
                    units = r.choice(sorted(opts))
            out.append({"std": plain(v["std"]), "local": f"a_{len(out)}",
                        "type": v["type"],
                        "kind": "len=*" if v["type"] == "character" and
                        r.random() < 0.5 else v["kind"], "units": units,
                        "dims": v["dims"], "intent": intent,
                        "optional": bool(v["active"]) or
                        self.chance("optional"), "top": False,
                        "one": r.random() < 0.3,
                        # (reals are of kind_phys if nothing is said)
                        "short": v["kind"] == "kind_phys" and
                        self.chance("short")})
        for std, units in SPECIAL.items():
            if self.chance("special") and (
                    phase == "run" or "thread_number" not in std):
                out.append({"std": std, "local": f"a_{len(out)}",
                            "type": "integer", "kind": "", "units": units,
                            "dims": [], "intent": "in", "optional": False,
                            "top": False, "one": False})
        if self.chance("special"):
            # sizes of the host
            std, loc = r.choice([("vertical_layer_dimension", "nl"),
                                 ("number_of_things", "nt")])
            out.append({"std": std, "local": loc, "type": "integer",
                        "kind": "", "units": "count", "dims": [],
                        "intent": "in", "optional": False, "top": False,
                        "one": False})
        if phase != "run" and self.chance("special"):
            out.append({"std": "horizontal_dimension", "local": "nh",
                        "type": "integer", "kind": "", "units": "count",
                        "dims": [], "intent": "in", "optional": False,
                        "top": False, "one": False})
        if phase == "run" and w["mode"] != "chunk" and \
                self.chance("special"):
            out.append({"std": "horizontal_loop_extent", "local": "nh",
                        "type": "integer", "kind": "", "units": "count",
                        "dims": [], "intent": "in", "optional": False,
                        "top": False, "one": False})
        r.shuffle(out)
        return out

    def suites(self, w):
        """The suites"""
        r = self.rng
        names = r.sample(["alpha", "beta", "alpha_beta", "s1", "suite_x"],
                         r.randint(*self.feat["nsuites"]))
        all_ = [s["name"] for s in w["schemes"]]
        w["suites"] = []
        for name in names:
            groups = []
            gnames = r.sample(["physics", "radiation", "time_vary", "g2",
                               "alpha"], r.randint(1, self.feat["ngroups"]))
            for g in gnames:
                cycles = []
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    cycles.append({"loop": r.choice([1, 1, 2, 3]),
                                   "schemes": [r.choice(all_) for _ in range(
                                       r.randint(1, 3))]})
                groups.append({"name": g, "subcycles": cycles})
            some = sorted({n for g in groups for c in g["subcycles"]
                           for n in c["schemes"]})
            w["suites"].append({
                "name": name, "groups": groups, "legacy": r.random() < 0.3,
                # schemes which the suite calls before and after its groups
                "init": r.choice(some) if self.chance("suitewide") else None,
                "finalize": r.choice(some) if self.chance("suitewide")
                else None})
        # schemes which nothing calls stay in the list of scheme files
        w["listed"] = r.sample([s["name"] for s in w["suites"]],
                               r.randint(1, len(w["suites"]))) \
            if r.random() < 0.3 else None


# Ways to write which the script's line parser does not follow
PLAINER = ("case", "ends", "prefix", "fixed", "cond", "defs", "mprops")


def called(w):
    """The suites which the host can call"""
    return [s for s in w["suites"]
            if not w["listed"] or s["name"] in w["listed"]]


def special(s):
    """The groups made of a suite's own init and finalize schemes"""
    return [{"name": tag, "special": phase,
             "subcycles": [{"loop": 1, "schemes": [s[tag]]}]}
            for tag, phase in (("init", "initialize"),
                               ("finalize", "finalize")) if s.get(tag)]


def caps(w):
    """Names of the caps"""
    return [f"ccpp_{s['name']}_cap.F90" for s in called(w)] + [
        f"ccpp_{s['name']}_{g['name']}_cap.F90"
        for s in called(w) for g in s["groups"] + special(s)]


def names_called(w):
    """Names of the schemes which the suites call"""
    return {n for s in called(w) for g in s["groups"] + special(s)
            for c in g["subcycles"] for n in c["schemes"]}


def tidy(w):
    """A world whose suites have init and finalize schemes of their groups"""
    for s in w["suites"]:
        some = {n for g in s["groups"] for c in g["subcycles"]
                for n in c["schemes"]}
        for tag in ("init", "finalize"):
            if s.get(tag) not in some:
                s[tag] = None
    return w


def scheme(w, name):
    """A scheme by its name"""
    for s in w["schemes"]:
        if s["name"] == name:
            return s
    raise KeyError(name)


# ------------------------------------------------------------------ rendering

def plain(std):
    """A standard name without the number of a thread"""
    return std.split("#")[0]


def blocked(w, v):
    """Is this variable stored in blocks?"""
    return w["mode"] == "block" and v["dims"][:1] == ["H"]


def owner(w, v):
    """The table of the host's metadata which holds a variable"""
    if blocked(w, v):
        return "block_t"
    if v.get("own"):
        return "inter_t"
    if v["in_ddt"]:
        return "inner_t" if v["in_ddt"] == "inner" else "host_state_t"
    return "host_more" if v.get("mod2") else "host_data"


def scheme_file(s):
    """Source file of a scheme, without its extension"""
    return "physics/" + s.get("file", s["name"])


def dep_files(s):
    """The files which a scheme depends on"""
    where = os.path.normpath(os.path.join(os.path.dirname(scheme_file(s)),
                                          s.get("rel", "")))
    out = [f"{where}/{s['name']}_dep{i or ''}.F90"
           for i in range(int(s["deps"]))]
    return out + ["common.F90"] * bool(s.get("common"))


def deps(s):
    """The lines of a scheme's metadata which say so"""
    path = s.get("rel", "")
    out = [f"  relative_path = {path}"] if path else []
    here = os.path.join(os.path.dirname(scheme_file(s)), path)
    names = [os.path.relpath(f, here) for f in dep_files(s)]
    if s.get("lines"):
        return out + [f"  dependencies = {n}" for n in names]
    return out + ["  dependencies = " + ", ".join(names)]


def hostdeps(w):
    """The files which the host's module depends on"""
    return [f"util/part_{i}.F90" for i in range(w.get("hostdeps", 0))]


def scheme_files(w):
    """All source files of schemes"""
    return sorted({scheme_file(s) + ".F90" for s in w["schemes"]})


def host_files(w):
    """The host's source files"""
    return ["ccpp_kinds.F90"] + ["host_more.F90"] * bool(w.get("mod2")) + \
        ["host_data.F90"]


def hostdims(w, v):
    """Dimensions of a host variable, as its metadata name them"""
    out = []
    for d in v["dims"]:
        if d == "H":
            out.append("horizontal_loop_extent" if w["mode"] == "block"
                       else "ccpp_constant_one:horizontal_dimension")
        elif d == "Z":
            out.append("0:" + STDDIM[d])
        else:
            out.append(STDDIM[d])
    return out


def argdims(a, phase):
    """Dimensions of an argument, as its metadata name them"""
    out = []
    for d in a["dims"]:
        if d == "H":
            n = "horizontal_loop_extent" if phase == "run" else \
                "horizontal_dimension"
            out.append(("ccpp_constant_one:" if a["one"] else "") + n)
        elif d == "Z":
            out.append("0:" + STDDIM[d])
        else:
            out.append(STDDIM[d])
    return out


def meta_var(local, std, units, typ, kind, dims, extra=()):
    """One variable of a table"""
    out = [f"[ {local} ]", f"  standard_name = {std}",
           f"  long_name = the {std}", f"  units = {units}",
           f"  dimensions = ({','.join(dims)})", f"  type = {typ}"]
    if kind:
        out.append(f"  kind = {kind}")
    return out + ["  " + x for x in extra]


def table(name, typ, body, deps=""):
    """A metadata table"""
    return ["[ccpp-table-properties]", f"  name = {name}", f"  type = {typ}",
            f"  dependencies = {deps}", "", "[ccpp-arg-table]",
            f"  name = {name}", f"  type = {typ}"] + body + [""]


def host_meta(w):
    """The host's metadata: of its main module, of its other one"""
    tabs = {"block_t": [], "inner_t": [], "inter_t": [], "host_state_t": [],
            "host_data": [], "host_more": []}
    top = tabs["host_data"]

    def scalar(local, std, units="count", typ="integer", dims=()):
        top.extend(meta_var(local, std, units, typ, "", dims))
    scalar("cdata", "ccpp_t_instance", "DDT", "ccpp_t")
    scalar("ncols", "horizontal_dimension")
    scalar("pver", "vertical_layer_dimension")
    scalar("nthings", "number_of_things")
    if w["mode"] == "chunk":
        scalar("nchunks", "ccpp_chunk_extent")
        for what in ("begin", "end"):
            scalar(f"chunk_{what}", f"horizontal_loop_{what}_all_chunks",
                   "index", dims=["ccpp_chunk_extent"])
            scalar(f"chunk_{what}(ccpp_chunk_number)",
                   f"horizontal_loop_{what}", "index")
    elif w["mode"] == "block":
        scalar("nblks", "ccpp_block_count")
        scalar("blksz", "ccpp_block_sizes", dims=["ccpp_block_count"])
        scalar("blksz(ccpp_block_number)", "horizontal_loop_extent")
        scalar("block_t", "block_t", "DDT", "block_t")
        scalar("blk(ccpp_block_number)", "block_t_instance", "DDT", "block_t")
        scalar("blk", "block_t_instance_all_blocks", "DDT", "block_t",
               ["ccpp_block_count"])
    else:
        scalar("nloop", "horizontal_loop_extent")
    if w["ddt"]:
        scalar("host_state_t", "host_state_t", "DDT", "host_state_t")
        scalar("hstate", "host_state_instance", "DDT", "host_state_t")
        if w.get("inner"):
            scalar("inner_t", "inner_t", "DDT", "inner_t")
            tabs["host_state_t"] += meta_var("part", "inner_instance", "DDT",
                                             "inner_t", "", [])
    if w.get("inter"):
        scalar("inter_t", "inter_t", "DDT", "inter_t")
        scalar("inter(ccpp_thread_number)", "inter_instance", "DDT",
               "inter_t")
        scalar("inter", "inter_instance_all_threads", "DDT", "inter_t",
               ["ccpp_thread_count"])
    for p in w["parents"]:
        dims = hostdims(w, p)
        dims.insert(0 if p["first"] else len(dims), "number_of_tracers")
        tabs[owner(w, p)] += meta_var(p["local"], p["std"], p["units"],
                                      p["type"], p["kind"], dims)
        scalar("ntracers", "number_of_tracers")
    for v in w["host"]:
        if v.get("own", 1) != 1:
            continue
        local = v.get("member", v["local"])
        if "slice" in v:
            sub = [":"] * len(v["dims"])
            sub.insert(0 if v["slice"]["first"] else len(sub),
                       v["slice"]["index"])
            local = f"{v['slice']['parent']}({','.join(sub)})"
        extra = []
        if v["active"]:
            extra = [f"active = ({active_text(v['active'])})"]
        tabs[owner(w, v)] += meta_var(local, plain(v["std"]), v["units"],
                                      v["type"],
                                      v["kind"], hostdims(w, v), extra)
    out = []
    if w["mode"] == "block":
        out += table("block_t", "ddt", tabs["block_t"])
    if w["ddt"]:
        if w.get("inner"):
            out += table("inner_t", "ddt", tabs["inner_t"])
        out += table("host_state_t", "ddt", tabs["host_state_t"])
    if w.get("inter"):
        out += table("inter_t", "ddt", tabs["inter_t"])
    out += table("host_data", "module", top, ",".join(hostdeps(w)))
    return "\n".join(out) + "\n", "\n".join(
        table("host_more", "module", tabs["host_more"])) + "\n"


def ftype(v):
    """Fortran type of a variable"""
    return v["type"] + (f"({v['kind']})" if v["kind"] else "")


def href(w, v, idx=None):
    """The host's variable, or an element of it"""
    name = v["slice"]["parent"] if "slice" in v else v["local"]
    sub = list(idx) if idx else []
    pre = "hstate%part%" if v["in_ddt"] == "inner" else \
        "hstate%" if v["in_ddt"] else ""
    if v.get("own"):
        pre, name = f"inter({v['own']})%", v["member"]
    if blocked(w, v):
        pre = f"blk(bof({sub[0]}))%" if sub else "blk(1)%"
        if sub:
            sub[0] = f"iof({sub[0]})"
    if "Z" in v["dims"] and sub:
        k = v["dims"].index("Z")
        sub[k] = f"{sub[k]} - 1"
    if "slice" in v:
        sub = sub or [":"] * len(v["dims"])
        sub.insert(0 if v["slice"]["first"] else len(sub),
                   str(v["slice"]["num"]))
    return pre + name + (f"({','.join(sub)})" if sub else "")


def extents(w, v, ncol="ncols"):
    """Bounds of a host array"""
    out = []
    for d in v["dims"]:
        out.append(ncol if d == "H" else "0:pver" if d == "Z" else HOSTDIM[d])
    if "num" in v:
        out.insert(0 if v["first"] else len(out), "ntracers")
    return ",".join(out)


def host_module(w):
    """The host's data: its main module, its other one"""
    out = ["module host_data", "  use ccpp_kinds, only: kind_phys, kind_sp",
           "  use ccpp_types, only: ccpp_t", "  implicit none", "  public"]
    parts = {"block_t": [], "inner_t": [], "inter_t": [], "host_state_t": [],
             "host_data": [], "host_more": []}
    for v in w["parents"] + w["host"]:
        if "slice" in v or v.get("own", 1) != 1:
            continue
        att = ", allocatable" if v["dims"] else ""
        rank = len(v["dims"]) + ("num" in v)
        dim = f"({','.join(':' * rank)})" if v["dims"] else ""
        parts[owner(w, v)].append(f"{ftype(v)}{att} :: "
                                  f"{v.get('member', v['local'])}{dim}")
    nb = len(w["chunks"])
    size = [e - b + 1 for b, e in w["chunks"]]
    out += [f"  integer, parameter :: ncols = {w['dims']['H']}",
            f"  integer :: pver = {w['dims']['L']}",
            f"  integer :: nthings = {w['dims']['E']}",
            f"  integer :: nloop = {w['dims']['H']}",
            f"  integer, parameter :: nchunks = {nb}",
            f"  integer, parameter :: nblks = {nb}",
            f"  integer, parameter :: nthrds = {w['thrds']}"]
    if w["parents"]:
        out.append(f"  integer :: ntracers = {w['parents'][0]['num']}")

    def vec(name, vals):
        return (f"  integer :: {name}({len(vals)}) = [" +
                ", ".join(map(str, vals)) + "]")
    out += [vec("chunk_begin", [b for b, _ in w["chunks"]]),
            vec("chunk_end", [e for _, e in w["chunks"]]), vec("blksz", size)]
    bof = [i + 1 for i, n in enumerate(size) for _ in range(n)]
    iof = [j + 1 for n in size for j in range(n)]
    out += [vec("bof", bof), vec("iof", iof)]
    inner = w["ddt"] and w.get("inner")
    if inner:
        parts["host_state_t"].append("type(inner_t) :: part")
    for typ, inst, there in (("block_t", f"blk({nb})", w["mode"] == "block"),
                             ("inner_t", "", inner),
                             ("inter_t", f"inter({w['thrds']})",
                              w.get("inter")),
                             ("host_state_t", "hstate", w["ddt"])):
        if not there:
            continue
        out += [f"!! \\section arg_table_{typ}", f"!! \\htmlinclude {typ}.html",
                "!!", f"  type {typ}"]
        out += ["    " + x for x in parts[typ]] or ["    integer :: nothing"]
        out.append(f"  end type {typ}")
        if inst:
            out.append(f"  type({typ}), target :: {inst}")
    out += ["  " + x.replace(" ::", ", target ::", 1)
            for x in parts["host_data"]]
    out += ["!! \\section arg_table_host_data",
            "!! \\htmlinclude host_data.html", "!!"]
    out += ["end module host_data"]
    more = ["module host_more", "  use ccpp_kinds, only: kind_phys, kind_sp",
            "  implicit none", "  public",
            "!! \\section arg_table_host_more",
            "!! \\htmlinclude host_more.html", "!!"] + [
                "  " + x.replace(" ::", ", target ::", 1)
                for x in parts["host_more"]] + ["end module host_more"]
    return "\n".join(out) + "\n", "\n".join(more) + "\n"


KINDS = """module ccpp_kinds
!! \\section arg_table_ccpp_kinds
!! \\htmlinclude ccpp_kinds.html
!!
  use, intrinsic :: iso_fortran_env, only: kind_phys => real64, &
       kind_sp => real32
  implicit none
  private
  public :: kind_phys, kind_sp
end module ccpp_kinds
"""


def kinds_meta():
    """Metadata of the kinds"""
    body = []
    for k in ("kind_phys", "kind_sp"):
        body += meta_var(k, k, "none", "integer", "", [])
    return "\n".join(table("ccpp_kinds", "module", body)) + "\n"


def scheme_meta(s):
    """A scheme's metadata"""
    out = ["[ccpp-table-properties]", f"  name = {s['name']}",
           "  type = scheme"] + deps(s) + [""]
    for phase, ph in s["phases"].items():
        out += ["[ccpp-arg-table]", f"  name = {s['name']}_{ph['spell']}",
                "  type = scheme"]
        for a in ph["args"]:
            extra = [f"intent = {a['intent']}"]
            if a["optional"]:
                extra.append("optional = True")
            out += meta_var(a["local"], a["std"], a["units"], a["type"],
                            "" if a.get("short") else a["kind"],
                            argdims(a, phase), extra)
        out += meta_var("errmsg", "ccpp_error_message", "none", "character",
                        "len=*", [], ["intent = out"])
        out += meta_var("errflg", "ccpp_error_code", "1", "integer", "", [],
                        ["intent = out"])
        out.append("")
    return "\n".join(out) + "\n"


def scheme_source(w, s, sid):
    """A scheme's stub"""
    out = [f"module {s['name']}",
           "  use ccpp_kinds, only: kind_phys, kind_sp", "  use sim_core",
           "  implicit none", "  private"]
    for ph in s["phases"].values():
        out.append(f"  public :: {s['name']}_{ph['spell']}")
    out.append("contains")
    for phase, ph in s["phases"].items():
        sub = f"{s['name']}_{ph['spell']}"
        out += [f"!> \\section arg_table_{sub} Argument Table",
                f"!! \\htmlinclude {sub}.html", "!!"]
        names = [a["local"] for a in ph["args"]] + ["errmsg", "errflg"]
        out.append(f"  subroutine {sub}( &")
        for i in range(0, len(names), 6):
            tail = ", &" if i + 6 < len(names) else ")"
            out.append("      " + ", ".join(names[i:i + 6]) + tail)
        for a in ph["args"]:
            dim = f"({','.join(':' for _ in a['dims'])})" if a["dims"] else ""
            opt = ", optional" if a["optional"] else ""
            out.append(f"    {ftype(a)}, intent({a['intent']}){opt} :: "
                       f"{a['local']}{dim}")
        out += ["    character(len=*), intent(out) :: errmsg",
                "    integer, intent(out) :: errflg"]
        out += capworld.body(dict(w, ddt=False), s, sid, phase, ph)
        out.append(f"  end subroutine {sub}")
    out.append(f"end module {s['name']}")
    return "\n".join(out) + "\n"


def suite_xml(s):
    """A suite definition file"""
    out = ['<?xml version="1.0" encoding="UTF-8"?>',
           f'<suite name="{s["name"]}" version="1">']
    if s.get("init"):
        out.append(f'  <init>{s["init"]}</init>')
    for g in s["groups"]:
        out.append(f'  <group name="{g["name"]}">')
        for c in g["subcycles"]:
            out.append(f'    <subcycle loop="{c["loop"]}">')
            out += [f"      <scheme>{n}</scheme>" for n in c["schemes"]]
            out.append("    </subcycle>")
        out.append("  </group>")
    if s.get("finalize"):
        out.append(f'  <finalize>{s["finalize"]}</finalize>')
    return "\n".join(out + ["</suite>"]) + "\n"


def config(w, repo):
    """The configuration file of ccpp_prebuild"""
    typedefs = {"ccpp_types": {"ccpp_t": "cdata", "ccpp_types": ""},
                "ccpp_kinds": {"ccpp_kinds": ""},
                "host_data": {"host_data": ""}}
    if w["mode"] == "block":
        typedefs["host_data"]["block_t"] = "blk(cdata%blk_no)"
    if w["ddt"]:
        typedefs["host_data"]["host_state_t"] = "hstate"
        if w.get("inner"):
            typedefs["host_data"]["inner_t"] = "hstate%part"
    if w.get("inter"):
        typedefs["host_data"]["inter_t"] = "inter(cdata%thrd_no)"
    if w.get("mod2"):
        typedefs["host_more"] = {"host_more": ""}
    out = ["HOST_MODEL_IDENTIFIER = 'sim'", "VARIABLE_DEFINITION_FILES = " +
           repr([repo + "/src/ccpp_types.F90"] + host_files(w)),
           "TYPEDEFS_NEW_METADATA = " +
           repr(typedefs), "SCHEME_FILES = " +
           repr(scheme_files(w)),
           "DEFAULT_BUILD_DIR = 'build'"]
    for what in ("TYPEDEFS", "SCHEMES", "CAPS"):
        for kind, ext in (("MAKEFILE", "mk"), ("CMAKEFILE", "cmake"),
                          ("SOURCEFILE", "sh")):
            out.append(f"{what}_{kind} = '{{build_dir}}/CCPP_{what}.{ext}'")
    out += ["CAPS_DIR = '{build_dir}/caps'", "SUITES_DIR = 'suites'",
            "OPTIONAL_ARGUMENTS = {}", "STATIC_API_DIR = '{build_dir}/api'",
            "STATIC_API_CMAKEFILE = '{build_dir}/CCPP_API.cmake'",
            "STATIC_API_SOURCEFILE = '{build_dir}/CCPP_API.sh'",
            "METADATA_HTML_OUTPUT_DIR = '{build_dir}'",
            "HTML_VARTABLE_FILE = '{build_dir}/CCPP_VARIABLES.html'",
            "LATEX_VARTABLE_FILE = '{build_dir}/CCPP_VARIABLES.tex'"]
    return "\n".join(out) + "\n"


def render(w, repo):
    """Every input file of a world"""
    files = {"config.py": config(w, repo), "ccpp_kinds.F90": KINDS,
             "ccpp_kinds.meta": kinds_meta(),
             "host_data.F90": host_module(w)[0],
             "host_data.meta": host_meta(w)[0]}
    if w.get("mod2"):
        files["host_more.F90"] = host_module(w)[1]
        files["host_more.meta"] = host_meta(w)[1]
    for sid, s in enumerate(w["schemes"], 1):
        name = scheme_file(s)
        files[name + ".meta"] = files.get(name + ".meta", "") + scheme_meta(s)
        files[name + ".F90"] = files.get(name + ".F90", "") + \
            scheme_source(w, s, sid)
        for dep in dep_files(s):
            mod = os.path.basename(dep)[:-4]
            files[dep] = f"module {mod}\nend module {mod}\n"
    for dep in hostdeps(w):
        mod = os.path.basename(dep)[:-4]
        files[dep] = f"module {mod}\nend module {mod}\n"
    for s in w["suites"]:
        name = ("suite_" if s["legacy"] and w["listed"] else "") + s["name"]
        files[f"suites/{name}.xml"] = suite_xml(s)
    if w.get("style"):
        files = style.apply(files, w["style"])
    return files


def api(w):
    """Module of the static API"""
    return "ccpp_static_api" + \
        (f"_{w['namespace']}" if w["namespace"] else "")


# -------------------------------------------------------------------- driver

def temp(w, v):
    """Declaration of a contiguous copy of a blocked array"""
    return f"{ftype(v)} :: t_{v['local']}({extents(w, v)})"


def flagref(w, std):
    """The host's name of a flag"""
    for v in w["host"]:
        if v["std"] == std:
            return href(w, v)
    raise KeyError(std)


def fill(w, v, num):
    """Statements which set a host variable from a seed"""
    if v["type"] == "logical":
        return [f"{href(w, v)} = mod(seed + {num}, 2) == 0"]
    idx = ["i", "j", "k"][:len(v["dims"])]
    el = href(w, v, idx)
    mix = " + ".join([f"seed*{3 + num % 5}", str(num * 7)] +
                     [f"{i}*{m}" for i, m in zip(idx, (5, 11, 3))])
    if v["type"] == "integer":
        stm = f"{el} = mod({mix}, 41)"
    elif v["type"] == "character":
        stm = f"{el} = sim_txt(mod({mix}, 41))"
    else:
        stm = f"{el} = real(mod({mix}, 83), {v['kind']})*0.5_{v['kind']}"
    loops = [f"do {i} = 1, {w['dims'][d]}"
             for i, d in zip(idx, v["dims"])][::-1]
    out = loops + [stm] + ["end do"] * len(idx)
    if v["dims"]:
        out = [f"if ({here(w, v)}) then"] + out + ["end if"]
    return out


def here(w, v):
    """Has the host this variable now?"""
    if "slice" in v:
        return ".true."
    return f"allocated({href(w, v)})"


def driver(w):
    """The host: reads a history and executes it"""
    o = ["module simhost_mod", "  use host_data", "  use sim_core",
         "  use ccpp_types, only: ccpp_t", f"  use {api(w)}"]
    if w.get("mod2"):
        o.append("  use host_more")
    o += [
         "  implicit none", "  type call_t",
         "    integer :: phase, inst, chunk, thrd",
         "    character(len=64) :: suite, part", "  end type call_t",
         "  type(call_t) :: tcalls(256, 16)", "  integer :: ntc(16)",
         "contains", "  subroutine fill(seed)",
         "    integer, intent(in) :: seed", "    integer :: i, j, k",
         "    i = 0; j = 0; k = 0"]
    for num, v in enumerate(w["host"]):
        if v.get("isflag") or v.get("isloop") or "isindex" in v:
            continue
        o += ["    " + t for t in fill(w, v, num)]
    o += ["  end subroutine fill", "  subroutine sync()",
          "    integer :: nb", "    nb = 0"]
    for v in w["host"]:
        if "isindex" in v:
            o.append(f"    {href(w, v)} = {v['isindex']}")
    for v in w["parents"] + w["host"]:
        if not v["dims"] or "slice" in v:
            continue
        cond = active_text(v["active"], lambda x: flagref(w, x)) \
            if v.get("active") else ".true."
        one = href(w, v)
        many = blocked(w, v)
        if many:
            one = f"blk(nb)%{v['local']}"
            o.append("    do nb = 1, nblks")
        ext = extents(w, v, "blksz(nb)" if many else "ncols")
        o += [f"    if ({cond}) then",
              f"      if (.not. allocated({one})) then",
              f"        allocate({one}({ext}))", f"        {one} = 7",
              "      end if", f"    else if (allocated({one})) then",
              f"      deallocate({one})", "    end if"]
        if many:
            o.append("    end do")
    o += ["  end subroutine sync", "  subroutine dump()"]
    for v in w["host"]:
        if v["dims"] and blocked(w, v):
            o.append(f"    {temp(w, v)}")
    o += ["    integer :: i, j, k", "    i = 0; j = 0; k = 0"]
    for v in w["host"]:
        x = href(w, v)
        if not v["dims"]:
            o.append(f"    call sim_arg('{v['local']}', {x})")
            continue
        o.append(f"    if ({here(w, v)}) then")
        if blocked(w, v):
            idx = ["i", "j", "k"][:len(v["dims"])]
            to = list(idx)
            if "Z" in v["dims"]:
                k = v["dims"].index("Z")
                to[k] += " - 1"
            o += ["      " + f"do {i} = 1, {w['dims'][d]}"
                  for i, d in zip(idx, v["dims"])][::-1]
            o.append(f"      t_{v['local']}({','.join(to)}) = "
                     f"{href(w, v, idx)}")
            o += ["      end do"] * len(idx)
            x = f"t_{v['local']}"
        o += [f"      call sim_arg('{v['local']}', {x})", "    else",
              f"      call sim_absent('{v['local']}')", "    end if"]
    o += ["  end subroutine dump", "  subroutine setflag(num, val)",
          "    integer, intent(in) :: num, val", "    select case (num)"]
    for num, v in enumerate(w["host"]):
        if v.get("isflag"):
            o += [f"    case ({num})", f"      {href(w, v)} = val == 1"]
        elif v.get("isloop"):
            o += [f"    case ({num})", f"      {href(w, v)} = val"]
    o += ["    case default", "      if (val > 9) stop 3", "    end select",
          "    call sync()", "  end subroutine setflag",
          "  subroutine resize(num, delta)",
          "    ! give an array of the host another last extent",
          "    integer, intent(in) :: num, delta", "    select case (num)"]
    for num, v in enumerate(w["host"]):
        if v["dims"] and "slice" not in v and not blocked(w, v):
            ext = extents(w, v) + " + delta"
            x = href(w, v)
            o += [f"    case ({num})", f"      if (allocated({x})) then",
                  f"        deallocate({x})", f"        allocate({x}({ext}))",
                  f"        {x} = 7", "      end if"]
    o += ["    case default", "      stop 3", "    end select",
          "  end subroutine resize", "  subroutine docall(c)",
          "    type(call_t), intent(in) :: c",
          "    type(ccpp_t), target :: cdata", "    integer :: ierr",
          "    character(len=700) :: s", "    ierr = -77",
          "    cdata%errmsg = 'unset'", "    cdata%errflg = -55",
          "    cdata%ccpp_instance = c%inst", "    cdata%chunk_no = c%chunk",
          "    cdata%blk_no = c%chunk", "    cdata%thrd_no = c%thrd",
          f"    cdata%thrd_cnt = {w['thrds']}", "    select case (c%phase)"]
    for p in PHASES:
        sub = f"ccpp_physics_{SPELL[p]}"
        o += [f"    case ({PHNUM[p]})", "      if (c%part == '*') then",
              f"        call {sub}(cdata, suite_name=trim(c%suite), "
              "ierr=ierr)", "      else",
              f"        call {sub}(cdata, suite_name=trim(c%suite), "
              "group_name=trim(c%part), ierr=ierr)", "      end if"]
    o += ["    end select",
          "    write(s, '(a,i0,1x,i0,a)') 'R ', ierr, cdata%errflg, "
          "' |'//trim(cdata%errmsg)//'|'", "    call sim_out(trim(s))",
          "  end subroutine docall", "end module simhost_mod", MAIN]
    return "\n".join(o) + "\n"


MAIN = capworld.MAIN.replace(", lists, resize", ", resize").replace(
    "cl%cs, cl%ce", "cl%inst, cl%chunk, cl%thrd").replace(
    "      read(line, *) cmd, a, b, c\n      call resize(a, b, c)",
    "      read(line, *) cmd, a, b\n      call resize(a, b)").replace(
    """    case ('ask')
      read(line, *) cmd, part, suite, a, b, c
      if (suite == '-') suite = ' '
      call lists(trim(part), trim(suite), [a, b, c])
""", "")


# ----------------------------------------------------------------- reference

class PreRef(Ref):
    """The model of host, suites and schemes under prebuild"""

    def __init__(self, w):    # pylint: disable=super-init-not-called
        self.w = w
        self.dims = w["dims"]
        self.sid = {s["name"]: i for i, s in enumerate(w["schemes"], 1)}
        self.suite = {s["name"]: s for s in called(w)}
        self.single = any(v["kind"] == "kind_sp" for v in w["host"])
        self.scales = {}
        self.faults = []
        self.task = 0
        self.odd = set()
        self.const = None
        self.ready = set()
        self.host = {v["std"]: None for v in w["host"]}
        self.sync(True)

    def everything(self):
        """Host variables and arguments"""
        for v in self.w["host"]:
            yield dict(v, std=plain(v["std"]))
        for s in self.w["schemes"]:
            for ph in s["phases"].values():
                yield from ph["args"]

    def active(self, v):
        """Is a host variable there?"""
        return not v["active"] or active_value(
            v["active"], lambda x: self.host[x].data[0])

    def sync(self, first=False):
        """Allocate and free as the host does"""
        for v in self.w["host"]:
            if not v["dims"]:
                if self.host[v["std"]] is None:
                    self.host[v["std"]] = Arr([], [
                        0 if v.get("isflag") or v.get("isloop") else None])
                if "isindex" in v:
                    self.host[v["std"]].data = [v["isindex"]]
        for v in self.w["host"]:
            if not v["dims"]:
                continue
            if not ("slice" in v or self.active(v)):
                self.host[v["std"]] = None
                self.odd.discard(v["std"])
            elif self.host[v["std"]] is None:
                arr = Arr([self.dims[d] for d in v["dims"]])
                arr.data = [7.0 if v["type"] == "real" else 7] * len(arr.data)
                self.host[v["std"]] = arr

    def resize(self, num, delta):    # pylint: disable=arguments-differ
        """Give an array another last extent (delta 0: the right one)"""
        v = self.w["host"][num]
        if self.host[v["std"]] is None:
            return
        ext = [self.dims[d] for d in v["dims"]]
        self.odd.discard(v["std"])
        if delta:
            ext[-1] += delta
            self.odd.add(v["std"])
        arr = Arr(ext)
        arr.data = [7.0 if v["type"] == "real" else 7] * len(arr.data)
        self.host[v["std"]] = arr

    def groups(self, suite, part, phase):
        """The groups which a call visits, or None"""
        if suite not in self.suite:
            return None
        s = self.suite[suite]
        extra = special(s)
        groups = [g for g in extra if g["name"] == "init"] + s["groups"] + \
            [g for g in extra if g["name"] == "finalize"]
        groups = [g for g in groups if g.get("special", phase) == phase]
        if part == "*":
            return groups
        return [g for g in groups if g["name"] == part] or None

    def has(self, group, phase):
        """Does some scheme of a group have this phase?"""
        return any(phase in scheme(self.w, n)["phases"]
                   for c in group["subcycles"] for n in c["schemes"])

    def pcall(self, phase, suite, part, inst, chunk, thrd):
        """(why illegal, events, code, message, odd) of a call"""
        groups = self.groups(suite, part, phase)
        if groups is None:
            return ("unknown suite" if suite not in self.suite
                    else "unknown group"), [], 1, "", False
        evs = []
        for g in groups:
            key = (suite, g["name"], inst)
            fixed = "special" in g
            if phase == "initialize" and key in self.ready:
                continue
            if phase == "finalize" and not fixed and key not in self.ready:
                continue
            if phase not in ("initialize", "finalize") and \
                    key not in self.ready and self.has(g, phase):
                return f"state: {phase} before init", evs, 1, "", False
            for cyc in g["subcycles"]:
                top = cyc["loop"] if phase == "run" else 1
                for cnt in range(1, top + 1):
                    for name in cyc["schemes"]:
                        if phase not in scheme(self.w, name)["phases"]:
                            continue
                        env = {"ccpp_loop_counter": cnt,
                               "ccpp_loop_extent": top,
                               "ccpp_thread_number": thrd,
                               "ccpp_thread_count": self.w["thrds"],
                               "ccpp_instance": inst}
                        code, msg, new = self.visit(name, phase, chunk, env)
                        if code is None:
                            return None, evs, 1, "", True
                        evs += new
                        if code:
                            return None, evs, code, msg, False
            if fixed:
                continue
            if phase == "initialize":
                self.ready.add(key)
            elif phase == "finalize":
                self.ready.discard(key)
        return None, evs, 0, "", False

    def visit(self, name, phase, chunk, env):
        """One call of one scheme"""
        sid, num = self.sid[name], PHNUM[phase]
        ph = scheme(self.w, name)["phases"][phase]
        args = ph["args"]
        lo, hi = 1, self.dims["H"]
        if phase == "run" and self.w["mode"] != "plain":
            lo, hi = self.w["chunks"][chunk - 1]
        byname = {v["std"]: v for v in self.w["host"]}

        def key(a):
            """Of several copies of a variable the thread has one"""
            own = f"{a['std']}#{env['ccpp_thread_number']}"
            return own if own in byname else a["std"]
        if any(key(a) in self.odd for a in args):
            return None, None, []
        evs = [("E", sid, num)]
        vals, attrs = [], []
        fixed = dict(env, vertical_layer_dimension=self.dims["L"],
                     number_of_things=self.dims["E"],
                     horizontal_dimension=self.dims["H"],
                     horizontal_loop_extent=hi - lo + 1)
        for a in args:
            attr = byname.get(key(a))
            attrs.append(attr)
            if attr is None:
                local = Arr([], [fixed[a["std"]]])
            elif not self.active(attr):
                vals.append(None)
                evs.append(("N", a["local"]))
                continue
            else:
                local = self.get(self.host[key(a)], attr, a, lo, hi)
            vals.append(local)
            if a["intent"] == "out":
                if a["dims"]:
                    evs.append(("A", a["local"], 0.0, [len(local.shape)],
                                list(local.shape)))
            else:
                evs.append(("A", a["local"], self.scale(a),
                            list(local.shape), list(local.data)))
        code, msg = self.fail_code(sid, num, 0)
        if code == 0:
            self.compute(ph, args, vals)
            code, msg = self.fail_code(sid, num, 1)
        else:
            for a, val in zip(args, vals):
                if val is not None and a["intent"] == "out":
                    val.data = [None] * len(val.data)
        evs.append(("X", sid, num, code))
        for a, val, attr in zip(args, vals, attrs):
            if val is not None and a["intent"] != "in":
                self.put(self.host[key(a)], attr, a, lo, hi, val)
        return code, msg, evs
