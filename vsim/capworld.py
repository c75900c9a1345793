"""Random worlds for the capgen simulation: a host model, scheme stubs and
suites; how they are written to files; and the reference interpreter which says
what every call must do.  Everything here is written from the documented
contract (metadata in, caps out); nothing of the framework is imported."""
import random
import struct

from . import boxworld, constworld, style

PHASES = ["register", "initialize", "timestep_initial", "run",
          "timestep_final", "finalize"]
PHNUM = {p: i for i, p in enumerate(PHASES)}
# How a scheme may spell each phase
SPELL = {"register": ["register"], "initialize": ["init", "initialize"],
         "timestep_initial": ["timestep_init", "timestep_initialize",
                              "timestep_initial"],
         "run": ["run"],
         "timestep_final": ["timestep_final", "timestep_finalize"],
         "finalize": ["final", "finalize"]}
API = {"register": "register", "initialize": "initialize",
       "timestep_initial": "timestep_initial", "run": "run",
       "timestep_final": "timestep_final", "finalize": "finalize"}
# units families: unit -> (factor, offset) from the first member:
#   value[unit] = value[first] * factor + offset
UNITS = [
    {"m": (1, 0), "cm": (100, 0), "mm": (1e3, 0), "km": (1e-3, 0),
     "um": (1e6, 0)},
    {"s": (1, 0), "min": (1 / 60., 0), "h": (1 / 3600., 0),
     "d": (1 / 86400., 0)},
    {"K": (1, 0), "C": (1, -273.15)},
    {"kg kg-1": (1, 0), "g kg-1": (1e3, 0)},
    {"Pa": (1, 0), "hPa": (1e-2, 0)},
    {"m s-1": (1, 0), "km h-1": (3.6, 0)},
    {"W m-2": (1, 0), "erg cm-2 s-1": (1e3, 0)},
    {"radian": (1, 0), "degree": (57.295779513, 0),
     "degree_north": (57.295779513, 0), "degree_east": (57.295779513, 0)},
    {"1": (1, 0)},
]
# how often each family is drawn
FAMS = [0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 7, 8]
# units with different zeros
OFFSET = ("K", "C")
# direct conversions which the framework offers
CONV = {frozenset(p) for p in [
    ("mm", "m"), ("cm", "m"), ("um", "m"), ("m", "km"), ("mm", "km"),
    ("s", "min"), ("s", "h"), ("h", "d"), ("s", "d"), ("K", "C"),
    ("kg kg-1", "g kg-1"), ("Pa", "hPa"), ("m s-1", "km h-1"),
    ("W m-2", "erg cm-2 s-1"), ("radian", "degree"),
    ("radian", "degree_north"), ("radian", "degree_east")]}
STDDIM = {"H": "horizontal_dimension", "L": "vertical_layer_dimension",
          "I": "vertical_interface_dimension", "E": "number_of_things",
          "R": "horizontal_loop_extent", "K": "3", "#": "3",
          "N": constworld.NUMBER}
HOSTDIM = {"H": "ncols", "L": "pver", "I": "pverp", "E": "nthings",
           "K": "3"}
SIZENAME = {"H": "im", "L": "levs", "I": "levsp", "E": "nthings"}
SHAPES = [["H", "L"], ["H", "L"], ["H", "L"], ["H"], ["H", "I"], [], [],
          ["L"], ["H", "L", "E"], ["H", "E"]]
WORDS = ["air", "cloud", "snow", "wind", "tracer", "flux", "ozone", "ice",
         "soil", "heat", "salt", "dust"]


def r32(x):
    """Round to single precision"""
    return struct.unpack("f", struct.pack("f", x))[0]


def convert(x, ufrom, uto):
    """Convert a value between units of one family"""
    if ufrom == uto:
        return x
    for fam in UNITS:
        if ufrom in fam and uto in fam:
            f1, o1 = fam[ufrom]
            f2, o2 = fam[uto]
            return (x - o1) / f1 * f2 + o2
    raise ValueError((ufrom, uto))


# texts of the host: a number in digits
CHARKIND = "len=8"

# ------------------------------------------------------------------ generation

class Gen:
    """Draw one world.  <feat> names the features this world may use."""

    def __init__(self, rng, feat):
        self.rng = rng
        self.feat = feat
        self.nvar = 0
        self.used_units = {}

    def chance(self, name):
        """A coin of feature <name>"""
        return self.rng.random() < self.feat.get(name, 0.0)

    def stdname(self):
        """A fresh standard name"""
        self.nvar += 1
        return (f"{self.rng.choice(WORDS)}_{self.rng.choice(WORDS)}_"
                f"v{self.nvar}")

    def world(self):
        """Return the world (JSON-able)"""
        rng = self.rng
        w = {"dims": {"H": rng.randint(3, 6), "L": rng.randint(2, 3),
                      "E": 2, "K": 3},
             "host": [], "schemes": [], "suites": [],
             "debug": self.chance("debug"),
             "ddt": self.chance("ddt"), "prefix": "simhost"}
        if self.feat.get("threads"):
            w["threads"] = True
            w["dims"]["H"] = rng.randint(4, 8)
        w["dims"]["I"] = w["dims"]["L"] + 1
        for _ in range(rng.randint(4, 8)):
            w["host"].append(self.hostvar(w))
        if not any(v["dims"][:1] == ["H"] and v["active"] is None
                   for v in w["host"]):
            v = self.hostvar(w)
            while "slice" in v:
                w["host"].append(v)
                v = self.hostvar(w)
            v.update(dims=["H", "L"], type="real", active=None,
                     units="m", family=0, kind="kind_phys")
            w["host"].append(v)
        self.suites(w)
        if self.feat.get("consts") and self.chance("consts"):
            constworld.draw(self, w)
        self.arguments(w)
        if rng.random() < 0.5:
            rng.shuffle(w["host"])
        if self.feat.get("deps") and self.chance("deps"):
            self.depends(w)
        if self.feat.get("style") and self.chance("style"):
            w["style"] = style.draw(rng)
        if self.chance("explicit"):
            for ph in (p for s in w["schemes"] for p in s["phases"].values()):
                for a in ph["args"]:
                    if a["dims"] and rng.random() < 0.6:
                        a["explicit"] = rng.choice(["", "", "1:"])
        own = random.Random(repr(w))
        if own.random() < self.feat.get("sizes", 0):
            # members of a type of the host instead of variables of its module
            w["sizes"] = "".join(d for d in "HLIE" if own.random() < 0.6)
            if len(w["sizes"]) > 1 and own.random() < 0.5:
                w["inner"] = own.choice(w["sizes"])  # a type within the type
            if w["ddt"] and any(v["in_ddt"] for v in w["host"]):
                for v in w["host"]:
                    if "isindex" in v and own.random() < 0.5:
                        v["in_ddt"] = True
        return w

    def hostvar(self, w):
        """One host variable"""
        rng = self.rng
        std = self.stdname()
        dims = list(rng.choice(SHAPES))
        if dims and self.chance("litdims"):
            dims = list(rng.choice([["H", "K"], ["K"], ["H", "L", "K"]]))
        typ = "real"
        if self.chance("chars") and rng.random() < 0.2:
            dims = ["E"]
        if not dims and rng.random() < 0.4:
            typ = rng.choice(["integer", "logical"])
        elif dims in ([], ["E"]) and self.chance("chars"):
            typ = "character"
        elif dims in (["H"], ["H", "L"]) and rng.random() < 0.12:
            typ = "integer"
        fam = rng.choice(FAMS)
        kind = "kind_phys"
        if typ == "real" and self.chance("kinds"):
            kind = "kind_sp"
        v = {"std": std, "local": f"hv_{self.nvar}", "type": typ,
             "kind": kind if typ == "real" else CHARKIND
             if typ == "character" else None, "dims": dims,
             "family": fam if typ == "real" else None,
             "units": rng.choice(sorted(UNITS[fam])) if typ == "real" else
             {"logical": "flag", "character": "none"}.get(typ, "count"),
             "top": bool("L" in dims and self.chance("flip") and
                         rng.random() < 0.5),
             "active": None,
             "in_ddt": bool(w["ddt"] and rng.random() < 0.6)}
        if typ == "real" and self.chance("slices"):
            self.slice(w, v)
        elif dims and self.chance("active"):
            v["active"] = self.condition(w, rng.randint(0, 2))
        return v

    def slice(self, w, v):
        """Let <v> be a section of a larger array of the host, chosen by an
        index which has a standard name"""
        rng = self.rng
        pos = rng.choice([len(v["dims"])] * 3 + [rng.randint(
            0, len(v["dims"]))])
        full = v["dims"][:pos] + ["#"] + v["dims"][pos:]
        parents = w.setdefault("parents", [])
        have = [p for p in parents if p["dims"] == full and p["free"]
                and p["kind"] == v["kind"] and p["in_ddt"] == v["in_ddt"]]
        if have and rng.random() < 0.7:
            par = rng.choice(have)
        else:
            par = {"local": f"hp_{len(parents) + 1}", "dims": full,
                   "kind": v["kind"], "in_ddt": v["in_ddt"],
                   "free": [1, 2, 3], "std": None}
            if rng.random() < 0.5:
                # the array as such is in the host's metadata, too
                par.update(std=self.stdname(), first=rng.random() < 0.5)
            parents.append(par)
        num = rng.choice(par["free"])
        par["free"].remove(num)
        std = self.stdname()
        index = {"std": ("index_of_" if rng.random() < 0.6 else "") + std,
                 "local": "ix_" + v["local"],
                 "type": "integer", "kind": None, "dims": [], "family": None,
                 "units": rng.choice(["index", "count", "1"]), "top": False,
                 "active": None, "isindex": num, "in_ddt": False}
        if v["dims"] and rng.random() < self.feat.get("active", 0.0):
            v["active"] = ["cmp", ">", index["std"], 0]
            if rng.random() < 0.4:
                index["isindex"] = 0
        w["host"].append(index)
        v["slice"] = {"parent": par["local"], "pos": pos,
                      "index": index["std"], "num": num,
                      "here": index["isindex"] > 0}

    def condition(self, w, depth):
        """When a host variable is active: a standard name of a flag, or
        [operator, operands]"""
        rng = self.rng
        if depth:
            roll = rng.random()
            if roll < 0.3:
                return ["not", self.condition(w, depth - 1)]
            if roll < 0.8:
                return [rng.choice(["and", "or", "eqv"]),
                        self.condition(w, depth - 1), self.condition(w, 0)]
        if rng.random() < 0.25:
            if rng.random() < 0.3:
                return ["cmp", rng.choice([">", "<=", "=="]),
                        STDDIM["E"], rng.choice([1, 2, 3])]
            return ["cmp", rng.choice(["==", "/=", "<", ">", "<=", ">="]),
                    self.setvar(w, "isloop"), rng.choice([0, 1, 2]),
                    rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1, 2])]
        return self.setvar(w, "isflag")

    def setvar(self, w, what):
        """A flag or a number which the host changes from time to time"""
        have = [v for v in w["host"] if v.get(what)]
        if what == "isflag":
            have += [v for v in w["host"] if v["type"] == "logical"
                     and v not in have]
        if not have or self.rng.random() < 0.3:
            v = {"std": self.stdname(), "local": f"hv_{self.nvar}",
                 "type": "logical" if what == "isflag" else "integer",
                 "kind": None, "dims": [], "family": None,
                 "units": "flag" if what == "isflag" else "count",
                 "top": False, "active": None,
                 "in_ddt": bool(w["ddt"] and self.rng.random() < 0.4)}
            w["host"].append(v)
            have = [v]
        v = self.rng.choice(have)
        v[what] = True
        return v["std"]

    def suites(self, w):
        """Schemes and the suites which use them"""
        rng = self.rng
        nsch = rng.randint(2, 5)
        # names which begin or end alike, or look like those of phases
        odd = ["sch", "sch_a", "sch_a_b", "b_sch_a", "pre_run", "init_it",
               "run_final", "sch_a_initial"]
        rng.shuffle(odd)
        odd = odd if self.chance("oddnames") else []
        for k in range(nsch):
            ph = ["run"] if rng.random() < 0.9 else []
            for p in PHASES:
                if p != "run" and rng.random() < (0.15 if p == "register"
                                                  else 0.4):
                    ph.append(p)
            if not ph:
                ph = ["run"]
            w["schemes"].append(
                {"name": odd[k] if odd else
                 f"sch{chr(97 + k)}" + rng.choice(["", "_x", "2"]),
                 "phases": {p: {"spell": rng.choice(SPELL[p]), "args": [],
                                "base": rng.randint(1, 40)}
                            for p in PHASES if p in ph}})
        runnable = [s["name"] for s in w["schemes"]]
        nsuite = 1 + (1 if self.chance("suites") else 0) + \
            (1 if self.chance("suites") and rng.random() < 0.4 else 0)
        snames = ["alpha_suite", "beta", "suite_gamma"]
        gnames = ["phys", "rad", "data_prep", "dyn"]
        if odd:
            snames = ["alpha", "alpha_beta", "beta", "alph", "beta_alpha"]
            rng.shuffle(snames)
        for k in range(nsuite):
            groups = []
            if odd:
                # (names which hold that of the suite)
                gnames = ["phys", "phys1", "phys_rad", "rad", "my_phys",
                          "run"] + rng.sample(
                    [snames[k] + "_late", snames[k] + "_phys",
                     "my_" + snames[k] + "_rad", snames[k]], 3)
            rng.shuffle(gnames)
            for g in range(rng.randint(1, 3)):
                items = []
                for _ in range(rng.randint(1, 3)):
                    items.append(self.item(w, runnable, 0))
                groups.append({"name": gnames[g] if odd else rng.choice(
                    ["phys", "rad", "data_prep", "dyn"]) + str(g + 1),
                    "split": rng.random() < 0.15, "items": items})
            w["suites"].append({"name": snames[k], "groups": groups})
        used = set()
        for s in w["suites"]:
            used |= set(names_in(s))
        w["schemes"] = [s for s in w["schemes"] if s["name"] in used]
        # the order in which the scheme files are listed
        if rng.random() < 0.5:
            rng.shuffle(w["schemes"])

    def depends(self, w):
        """Files which tables depend on, kinds of processes"""
        rng = self.rng
        files = ["aux_a.F90", "aux_b.F90", "math/fft.F90", "../shared/c.F90",
                 "x.f90"]

        def some():
            if rng.random() < 0.2:
                return {"files": [["none", "None"][rng.randrange(2)]],
                        "rows": 1, "rel": None}
            lst = rng.sample(files, rng.randint(1, 3))
            return {"files": lst, "rows": rng.randint(1, len(lst)),
                    "rel": rng.choice([None, None, "lib", "../other", "."])}
        for s in w["schemes"]:
            if rng.random() < 0.5:
                s["deps"] = some()
            if rng.random() < 0.5:
                s["process"] = rng.choice(["radiation", "micro_physics",
                                           "PBL", s["name"]])
                for ph in s["phases"].values():
                    ph["process"] = rng.random() < 0.8
        w["deps"] = {t: some() for t in ("host_data", "host_state_t",
                                         "simhost")
                     if rng.random() < 0.5}

    def item(self, w, names, depth):
        """A scheme or a subcycle"""
        rng = self.rng
        if depth < 2 and self.chance("subcycle") and rng.random() < 0.4:
            loop = rng.randint(1, 3)
            if rng.random() < 0.35:
                # the host says how often
                loop = self.setvar(w, "isloop")
            return {"loop": loop,
                    "name": rng.choice(["", "", "iter_a", "nsub"]),
                    "items": [self.item(w, names, depth + 1)
                              for _ in range(rng.randint(1, 2))]}
        return rng.choice(names)

    def arguments(self, w):
        """Give the schemes their arguments"""
        rng = self.rng
        flags = {v["std"] for v in w["host"]
                 if v.get("isloop") or v.get("isflag") or "isindex" in v}
        inter = []
        for _ in range(rng.randint(0, int(2 + self.feat["suitevars"]))
                       if self.feat.get("suitevars") else 0):
            dims = list(rng.choice([["H", "L"], ["H"], ["H", "I"], [],
                                    ["H", "L"], ["L"]]))
            if dims and self.chance("litdims"):
                dims = rng.choice([["H", "K"], ["K"], ["H", "L", "K"]])
            typ = "real"
            if not dims and rng.random() < 0.3:
                typ = "integer"
            elif not dims and self.chance("chars"):
                typ = "character"
            fam = rng.choice(FAMS)
            inter.append({"std": self.stdname(), "type": typ,
                          "kind": "kind_phys" if typ == "real" else CHARKIND
                          if typ == "character" else None,
                          "dims": dims, "family": fam, "top": False,
                          "units": sorted(UNITS[fam])[0] if typ == "real"
                          else "none" if typ == "character" else "count",
                          "active": None})
        if self.feat.get("boxes") and self.chance("boxes"):
            boxworld.draw(self, w)
            for _ in range(rng.choice([1, 1, 2, 3])):
                inter.append(boxworld.variable(self, w))
        locs = [f"x{i}" for i in range(1, 7)]
        if self.chance("badlocals"):
            # names which the host, the caps or other arguments use
            locs = ["ncols", "pver", "col_start", "col_end", "hstate",
                    "suite_name", "suite_part", "nthings",
                    "lb1", "ub1", "hp_1", "pverp", "errcode", "x_ptr",
                    "x"] + [v["local"] for v in w["host"][:2]] + \
                [s["name"] + "x" for s in w["schemes"]]
            rng.shuffle(locs)
        for s in w["schemes"]:
            for p, ph in s["phases"].items():
                pool = [v for v in w["host"]]
                rng.shuffle(pool)
                pick = pool[:rng.randint(1, 4)]
                names = list(locs)
                if rng.random() < 0.5:
                    rng.shuffle(names)
                for v in pick:
                    a = self.arg(w, v, names.pop(), p, flags)
                    if a:
                        ph["args"].append(a)
                if p != "register":
                    for v in inter:
                        if rng.random() < 0.5:
                            a = self.arg(w, v, names.pop() if names else
                                         f"y{self.nvar}", p, flags)
                            self.nvar += 1
                            if a:
                                a["inter"] = True
                                ph["args"].append(a)
                if w.get("consts"):
                    constworld.arguments(self, w, s, p, ph, names)
                if rng.random() < 0.5:
                    rng.shuffle(ph["args"])
        if w["ddt"] and self.chance("ddtarg"):
            self.states(w)
        self.legalise(w)
        if w.get("consts"):
            constworld.legalise(w)
        if w.get("threads"):
            while self.shared_writes(w):
                self.legalise(w)
        if not self.chance("samenames"):
            # the schemes agree on names, or each has its own
            own = self.chance("distinct")
            for k, s in enumerate(w["schemes"]):
                for ph in s["phases"].values():
                    for a in ph["args"]:
                        a["local"] = ("zt" if a.get("tend") else "z") + \
                            a["std"].rsplit("_", 1)[1] + \
                            (chr(97 + k) if own else "")
        for s in w["schemes"]:
            for p, ph in s["phases"].items():
                self.dimargs(w, p, ph)

    def states(self, w):
        """Some schemes get the host's derived type as a whole.  What it holds
        is then no argument of its own, unless nobody changes it"""
        rng = self.rng
        inside = [v for v in w["host"] if v["in_ddt"] and "slice" not in v]
        if not inside:
            return
        keep = {v["std"] for v in w["host"] if v.get("isflag") or
                v.get("isloop")}
        writes = set()
        for s in w["schemes"]:
            for p, ph in s["phases"].items():
                if rng.random() < 0.4:
                    continue
                inout = rng.random() < 0.6 and not (w.get("threads")
                                                    and p == "run")
                mine = sorted(v["std"] for v in inside if inout and
                              v["std"] not in keep and rng.random() < 0.5)
                writes |= set(mine)
                have = {a["local"] for a in ph["args"]}
                ph["state"] = {"local": rng.choice(
                    [x for x in ("st", "state", "hstate") if x not in have]),
                               "intent": "inout" if inout else "in",
                               "first": rng.random() < 0.5, "writes": mine}
        std = {v["std"] for v in inside}
        for s in w["schemes"]:
            for ph in s["phases"].values():
                writes |= {a["std"] for a in ph["args"]
                           if a["std"] in std and a["intent"] != "in"}
        for s in w["schemes"]:
            for ph in s["phases"].values():
                ph["args"] = [a for a in ph["args"] if a["std"] not in std
                              or a["std"] not in writes]

    def dimargs(self, w, phase, ph):
        """The usual companions: the extents of the arrays, as arguments"""
        if phase == "register" or \
                self.rng.random() > self.feat.get("dimargs", 1.0):
            return
        used = {d for a in ph["args"] for d in a["dims"]}
        front = []
        for d in "HLIEN":
            if d in used:
                std = STDDIM[d]
                if d == "H" and phase == "run":
                    std = STDDIM["R"]
                front.append({"std": std, "local": {"H": "im", "L": "levs",
                              "I": "levi", "E": "nth", "N": "ncnst"}[d], "intent": "in",
                              "type": "integer", "kind": None, "dims": [],
                              "units": "count", "top": False,
                              "optional": False, "one": False, "dimarg": d})
        if self.rng.random() < 0.8:
            ph["args"] = front + ph["args"]
        else:
            ph["args"] = ph["args"] + front

    def arg(self, w, v, local, phase, flags):
        """An argument of a scheme for variable <v>"""
        rng = self.rng
        intent = rng.choice(["in", "in", "inout", "inout", "out"])
        if v["std"] in flags:
            intent = "in"
        a = {"std": v["std"], "local": local, "intent": intent,
             "type": v["type"], "kind": v["kind"], "dims": list(v["dims"]),
             "units": v["units"], "top": v["top"], "optional": False,
             "one": rng.random() < 0.15}
        if v.get("box"):
            a["box"] = True
        if v["type"] == "real":
            if self.chance("units"):
                # (the framework wants every pair of units to be convertible)
                used = self.used_units.setdefault(v["std"], {v["units"]})
                cands = [u for u in sorted(UNITS[v["family"]])
                         if all(u == x or frozenset((u, x)) in CONV
                                for x in used)]
                if cands:
                    a["units"] = rng.choice(cands)
                    used.add(a["units"])
            if self.chance("kinds"):
                a["kind"] = rng.choice(["kind_phys", "kind_sp"])
            if "L" in v["dims"] and self.chance("flip"):
                a["top"] = rng.random() < 0.5
        if v["type"] == "character" and rng.random() < 0.5 and \
                ("local" in v or intent != "out"):
            a["kind"] = "len=*"
        if v["active"] is not None or (v["dims"] and self.chance("optional")):
            a["optional"] = True
        return a

    def legalise(self, w):
        """Drop interstitial arguments which some suite would read before any
        scheme has written them"""
        inter = {a["std"] for s in w["schemes"] for p in s["phases"].values()
                 for a in p["args"] if a.get("inter")}
        for std in sorted(inter):
            # Find the first write in the fixed order of phases; everything
            # which may come before it must not touch the variable
            for _ in range(30):
                bad = self.first_bad(w, std)
                if not bad:
                    break
                sname, phase = bad
                for s in w["schemes"]:
                    if s["name"] == sname:
                        args = s["phases"][phase]["args"]
                        mine = [a for a in args if a["std"] == std]
                        # either becomes a producer or loses the argument
                        if mine[0]["intent"] != "out" and \
                                self.rng.random() < 0.5:
                            mine[0]["intent"] = "out"
                            mine[0]["optional"] = False
                            if mine[0]["type"] == "character":
                                mine[0]["kind"] = CHARKIND
                        else:
                            s["phases"][phase]["args"] = [
                                a for a in args if a["std"] != std]

    @staticmethod
    def shared_writes(w):
        """Columns may be computed by several threads: the run phase writes
        nothing which they share.  Change the first offender; True if any"""
        host = {v["std"] for v in w["host"]}
        private = {}                    # std -> is it local wherever it is used
        for suite in w["suites"]:
            use = {}
            for g in suite["groups"]:
                for name in names_in({"groups": [g]}):
                    for phase, ph in scheme(w, name)["phases"].items():
                        for a in ph["args"]:
                            use.setdefault(a["std"], set()).add(
                                g["name"] if phase == "run" else phase)
            for std, where in use.items():
                private[std] = private.get(std, True) and len(where) == 1
        for s in w["schemes"]:
            for a in list(s["phases"].get("run", {"args": []})["args"]):
                if a["intent"] == "in" or "H" in a["dims"]:
                    continue
                if a["std"] in host:
                    a["intent"] = "in"
                    return True
                if not private.get(a["std"], True):
                    s["phases"]["run"]["args"].remove(a)
                    return True
        return False

    @staticmethod
    def first_bad(w, std):
        """(scheme, phase) of a use of <std> which cannot stay, or None"""
        attrs = None
        for suite in w["suites"]:
            first = None
            for sname, phase, group in order_of(w, suite):
                sch = scheme(w, sname)
                for a in sch["phases"][phase]["args"]:
                    if a["std"] != std:
                        continue
                    if first is None:
                        if a["intent"] != "out" or a["optional"]:
                            return sname, phase
                        first = (sname, phase, group)
                        # every suite's variable has its producer's attributes
                        mine = (a["units"], a["kind"], a["top"])
                        if attrs is None:
                            attrs = mine
                        elif attrs != mine:
                            return sname, phase
                    elif a["intent"] == "out" and phase == "timestep_initial" \
                            and first[1] == "initialize":
                        pass
                    elif first[1] == "timestep_initial" and phase == "finalize":
                        return sname, phase
                    elif first[1] == "timestep_final" and phase == "finalize":
                        return sname, phase
        return None


def loops_in(suite):
    """Standard names which say how often subcycles of a suite run"""
    out = set()

    def walk(items):
        for it in items:
            if not isinstance(it, str):
                if isinstance(it["loop"], str):
                    out.add(it["loop"])
                walk(it["items"])
    for g in suite["groups"]:
        walk(g["items"])
    return out


def names_in(suite):
    """Scheme names of a suite, in order, repetitions kept"""
    out = []

    def walk(items):
        for it in items:
            if isinstance(it, str):
                out.append(it)
            else:
                walk(it["items"])
    for g in suite["groups"]:
        walk(g["items"])
    return out


def scheme(w, name):
    """The scheme <name> of world <w>"""
    for s in w["schemes"]:
        if s["name"] == name:
            return s
    raise KeyError(name)


def order_of(w, suite):
    """Every (scheme, phase, group) of a suite in the order in which a host's
    regular cycle reaches them.  In the phases other than run each scheme of
    the suite which has the phase is called once, in scheme file order."""
    used = set(names_in(suite))
    full = [s["name"] for s in w["schemes"] if s["name"] in used]
    out = []
    for ph in PHASES:
        if ph == "run":
            for g in suite["groups"]:
                for n in names_in({"groups": [g]}):
                    if "run" in scheme(w, n)["phases"]:
                        out.append((n, "run", g["name"]))
        else:
            for n in full:
                if ph in scheme(w, n)["phases"]:
                    out.append((n, ph, ph))
    return out


# ------------------------------------------------------------------- rendering

def meta_var(local, std, units, typ, kind, dims, extra=()):
    """One metadata variable section"""
    out = [f"[ {local} ]", f"  standard_name = {std}"] + (
        [f"  units = {units}"] if units else []) + [
           f"  dimensions = ({', '.join(dims)})",
           f"  type = {typ}"]
    if kind:
        out.append(f"  kind = {kind}")
    out += ["  " + e for e in extra]
    return "\n".join(out) + "\n"


def deps_text(deps):
    """The properties of a table which name its dependencies"""
    if not deps:
        return ""
    out = []
    if deps["rel"]:
        out.append(f"  relative_path = {deps['rel']}\n")
    rows = [deps["files"][i::deps["rows"]] for i in range(deps["rows"])]
    for row in rows:
        out.append(f"  dependencies = {', '.join(row)}\n")
    return "".join(out)


def table(name, typ, deps=None):
    """Heads of a metadata table"""
    return (f"[ccpp-table-properties]\n  name = {name}\n  type = {typ}\n"
            + deps_text(deps) +
            f"[ccpp-arg-table]\n  name = {name}\n  type = {typ}\n")


def members(w, ph):
    """What a scheme gets with the host's derived type, as arguments"""
    st = ph.get("state")
    if not st or not w["ddt"]:
        return []
    return [dict(v, local=f"{st['local']}%{v['local']}", intent="inout"
                 if v["std"] in st["writes"] else "in", member=True,
                 optional=bool(v["active"] and v["dims"]), one=False)
            for v in w["host"] if v["in_ddt"] and "slice" not in v]


def argdims(a, phase):
    """Standard names of an argument's dimensions"""
    out = []
    for d in a["dims"]:
        if d == "H":
            n = "horizontal_loop_extent" if phase == "run" else \
                "horizontal_dimension"
            if a.get("one"):
                n = "ccpp_constant_one:" + n
            out.append(n)
        else:
            out.append(STDDIM[d])
    return out


def ftype(typ, kind):
    """Fortran declaration of a type"""
    if typ == "real":
        return f"real({kind})"
    if typ == "character":
        return f"character({kind})"
    if typ not in ("integer", "logical"):
        return f"type({typ})"
    return typ


def render(w):
    """Files of a world: {name: text}, and the lists which capgen needs"""
    files = {}
    hostmeta = []
    deps = w.get("deps", {})
    mod = []
    ddt = []
    sizes, inner = [], []
    for d in "HLIE":
        held = d in w.get("sizes", ())
        (inner if held and d == w.get("inner") else
         sizes if held else mod).append(
            meta_var(SIZENAME[d] if held else HOSTDIM[d], STDDIM[d], "count",
                     "integer", None, [], ["protected = True"]))
    if inner and sizes:
        hostmeta.append(table("host_inner_t", "ddt") + "".join(inner))
        sizes.append(meta_var("more", "host_inner_instance", "DDT",
                              "host_inner_t", None, []))
    if sizes:
        hostmeta.append(table("host_sizes_t", "ddt") + "".join(sizes))
        mod.append(meta_var("hsize", "host_sizes_instance", "DDT",
                            "host_sizes_t", None, []))
    used = {v["slice"]["parent"] for v in w["host"] if "slice" in v}
    whole = [dict(p, units="1", type="real", top=False, active=None)
             for p in w.get("parents", ()) if p["local"] in used and p["std"]]
    for v in [p for p in whole if p["first"]] + w["host"] + \
            [p for p in whole if not p["first"]]:
        extra = []
        if v["top"]:
            extra.append("top_at_one = .true.")
        if v["active"]:
            extra.append(f"active = ({active_text(v['active'])})")
        txt = meta_var(metaname(v), v["std"], v["units"], v["type"], v["kind"],
                       [STDDIM[d] for d in v["dims"]], extra)
        (ddt if v["in_ddt"] else mod).append(txt)
    if ddt:
        hostmeta.append(table("host_state_t", "ddt",
                              deps.get("host_state_t")) + "".join(ddt))
        mod.append(meta_var("hstate", "host_state_instance", "DDT",
                            "host_state_t", None, []))
    hostmeta.append(table("host_data", "module",
                          deps.get("host_data")) + "".join(mod))
    files["host_data.meta"] = "".join(hostmeta)
    files["host_data.F90"] = host_module(w, bool(ddt))
    files["simhost.meta"] = table("simhost", "host", deps.get("simhost")) + \
        meta_var("col_start", "horizontal_loop_begin", "count", "integer",
                 None, [], ["protected = True"]) + \
        meta_var("col_end", "horizontal_loop_end", "count", "integer", None,
                 [], ["protected = True"]) + \
        meta_var("errmsg", "ccpp_error_message", "none", "character",
                 "len=512", []) + \
        meta_var("errflg", "ccpp_error_code", "1", "integer", None, [])
    files["simhost.F90"] = driver(w)
    if w.get("consts"):
        files["simaux.F90"] = constworld.AUX
    if w.get("boxes"):
        files["simbox.meta"] = boxworld.meta(w)
        files["simbox.F90"] = boxworld.source(w)
    for num, s in enumerate(w["schemes"]):
        files[s["name"] + ".meta"] = scheme_meta(s)
        files[s["name"] + ".F90"] = scheme_source(w, s, num + 1)
    for s in w["suites"]:
        files[s["name"] + ".xml"] = suite_xml(s)
    if w.get("style"):
        files = style.apply(files, w["style"])
    return files


def suite_xml(suite):
    """A suite definition file"""
    out = ['<?xml version="1.0" encoding="UTF-8"?>', "",
           f'<suite name="{suite["name"]}" version="1.0">']

    def walk(items, ind):
        for it in items:
            if isinstance(it, str):
                out.append(f"{ind}<scheme>{it}</scheme>")
            else:
                name = f' name="{it["name"]}"' if it.get("name") else ""
                out.append(f'{ind}<subcycle{name} loop="{it["loop"]}">')
                walk(it["items"], ind + "  ")
                out.append(f"{ind}</subcycle>")
    for g in suite["groups"]:
        out.append(f'  <group name="{g["name"]}">')
        if g.get("split"):
            out.append("    <time_split>")
        walk(g["items"], "    ")
        if g.get("split"):
            out.append("    </time_split>")
        out.append("  </group>")
    out.append("</suite>")
    return "\n".join(out) + "\n"


def scheme_meta(s):
    """Metadata of a scheme"""
    out = [f"[ccpp-table-properties]\n  name = {s['name']}\n  type = scheme\n",
           deps_text(s.get("deps"))]
    for phase, ph in s["phases"].items():
        out.append(f"[ccpp-arg-table]\n  name = {s['name']}_{ph['spell']}\n"
                   "  type = scheme\n")
        if ph.get("process"):
            out.append(f"  process = {s['process']}\n")
        if "dyn" in ph:
            out.append(constworld.dyn_meta(ph["dyn"]))
        st = ph.get("state")
        whole = meta_var(st["local"], "host_state_instance", "DDT",
                         "host_state_t", None, [],
                         [f"intent = {st['intent']}"]) if st else ""
        if st and st["first"]:
            out.append(whole)
        for a in ph["args"]:
            extra = [f"intent = {a['intent']}"]
            if a["top"]:
                extra.append("top_at_one = .true.")
            if a["optional"]:
                extra.append("optional = .true.")
            extra += constworld.meta_extra(a)
            out.append(meta_var(a["local"], a["std"], a["units"], a["type"],
                                a["kind"], argdims(a, phase), extra))
        if st and not st["first"]:
            out.append(whole)
        out.append(meta_var("errmsg", "ccpp_error_message", "none",
                            "character", "len=512", [], ["intent = out"]))
        out.append(meta_var("errflg", "ccpp_error_code", "1", "integer", None,
                            [], ["intent = out"]))
    return "".join(out)


def scheme_source(w, s, sid):
    """The stub of a scheme"""
    out = [f"module {s['name']}",
           "  use ccpp_kinds, only: kind_phys, kind_sp",
           "  use sim_core", "  implicit none", "  private"]
    if any("dyn" in ph for ph in s["phases"].values()):
        out.insert(2, "  use ccpp_constituent_prop_mod, only: "
                   "ccpp_constituent_properties_t")
    if any("state" in ph for ph in s["phases"].values()):
        out.insert(2, "  use host_data, only: host_state_t")
    types = sorted({a["type"] for ph in s["phases"].values()
                    for a in ph["args"] if a.get("box")})
    if types:
        out.insert(2, f"  use {w['boxes']['module']}, only: "
                   + ", ".join(types))
        out.insert(2, "  use simbox_use, only: sim_bnum" +
                   "".join(f", new_{t}" for t in types))
    for ph in s["phases"].values():
        out.append(f"  public :: {s['name']}_{ph['spell']}")
    out.append("contains")
    for phase, ph in s["phases"].items():
        sub = f"{s['name']}_{ph['spell']}"
        out.append(f"!> \\section arg_table_{sub} Argument Table")
        out.append(f"!! \\htmlinclude {sub}.html")
        out.append("!!")
        dyn = [ph["dyn"]["local"]] if "dyn" in ph else []
        names = [a["local"] for a in ph["args"]]
        st = ph.get("state")
        if st:
            names.insert(0 if st["first"] else len(names), st["local"])
        names = dyn + names + ["errmsg", "errflg"]
        out.append(f"  subroutine {sub}(&")
        for i in range(0, len(names), 6):
            tail = ", &" if i + 6 < len(names) else ")"
            out.append("      " + ", ".join(names[i:i + 6]) + tail)
        for x in dyn:
            out.append("    type(ccpp_constituent_properties_t), allocatable,"
                       f" intent(out) :: {x}(:)")
        if st:
            out.append(f"    type(host_state_t), intent({st['intent']}) :: "
                       f"{st['local']}")
        for a in ph["args"]:
            dim = bounds(ph, a)
            opt = ", optional" if a["optional"] else ""
            out.append(f"    {ftype(a['type'], a['kind'])}, "
                       f"intent({a['intent']}){opt} :: {a['local']}{dim}")
        out.append("    character(len=512), intent(out) :: errmsg")
        out.append("    integer, intent(out) :: errflg")
        out += body(w, s, sid, phase, ph)
        out.append(f"  end subroutine {sub}")
    out.append(f"end module {s['name']}")
    return "\n".join(out) + "\n"


def bounds(ph, a):
    """How a stub declares the bounds of an argument: mostly assumed, or by
    the arguments before it which hold the extents"""
    if not a["dims"]:
        return ""
    ext = {}
    for b in ph["args"]:
        if b is a:
            break
        if b.get("dimarg"):
            ext[b["dimarg"]] = b["local"]
    if a.get("explicit") is None or not set(a["dims"]) <= set(ext):
        return f"({','.join(':' for _ in a['dims'])})"
    return f"({','.join(a['explicit'] + ext[d] for d in a['dims'])})"


def hsize(ph):
    """Fortran expression of the number of columns which a stub sees"""
    for a in ph["args"]:
        if a["dims"][:1] == ["H"] and not a["optional"]:
            return f"size({a['local']}, 1)"
    return None


def body(w, s, sid, phase, ph):
    """Statements of a stub.  Reals: every written element is a bounded
    function of what the stub read for that column plus its position.
    Integers and logicals depend on integer and logical scalars only."""
    num = PHNUM[phase]
    ncol = w["dims"]["H"]
    out = [f"    real(real64) :: acc({ncol}), sc, vmean",
           "    integer :: i, j, k, ni, isum", "    logical :: lsum"]
    out.append(f"    call sim_enter({sid}, {num})")
    out.append("    acc = 0.0_real64; sc = 0.0_real64; isum = 0; "
               "lsum = .false.; ni = 0; vmean = 0.0_real64; "
               "i = 0; j = 0; k = 0")
    args = ph["args"] + members(w, ph)
    for n, a in enumerate(args):
        x = a["local"]
        ind = "    "
        if a["optional"]:
            out.append(f"    if ({there(a)}) then")
            ind = "      "
        if a["intent"] != "out":
            val = f"sim_bnum({x})" if a.get("box") else x
            out.append(f"{ind}call sim_arg('{x}', {val})")
            out += [ind + t for t in read(a, n)]
        else:
            # the extent of an output is part of what the scheme was given
            if a["dims"]:
                out.append(f"{ind}call sim_arg('{x}', shape({x}))")
        if a["optional"]:
            out.append("    else")
            out.append(f"      call sim_absent('{x}')")
            out.append("    end if")
    out.append(f"    call sim_fail({sid}, {num}, 0, errflg, errmsg)")
    out.append("    if (errflg /= 0) then")
    out.append(f"      call sim_exit({sid}, {num}, errflg)")
    out.append("      return")
    out.append("    end if")
    if "dyn" in ph:
        out += ["    " + t for t in constworld.dyn_body(ph["dyn"])]
    for n, a in enumerate(args):
        if a["intent"] == "in":
            continue
        ind = "    "
        if a["optional"]:
            out.append(f"    if ({there(a)}) then")
            ind = "      "
        out += [ind + t for t in write(a, ph["base"] + n)]
        if a["optional"]:
            out.append("    end if")
    out.append(f"    call sim_fail({sid}, {num}, 1, errflg, errmsg)")
    out.append(f"    call sim_exit({sid}, {num}, errflg)")
    return out


def there(a):
    """A Fortran condition: has the scheme been given this argument?"""
    return f"{'allocated' if a.get('member') else 'present'}({a['local']})"


def read(a, n):
    """Statements which fold an input into the accumulators"""
    x = a["local"]
    wt = f"{weight(n)}_real64"
    dims = a["dims"]
    if a.get("box"):
        return [f"isum = isum + {n + 1}*mod(sim_bnum({x}), 97)"]
    if a["type"] == "integer":
        if not dims:
            return [f"isum = isum + {n + 1}*mod({x}, 97)"]
        rest = ",:" * (len(dims) - 1)
        if dims[0] == "H":
            return [f"do i = 1, size({x}, 1)",
                    f"  acc(i) = acc(i) + {wt}*real("
                    + (f"sum({x}(i{rest}))" if rest else f"{x}(i)")
                    + ", real64)", "end do"]
        return [f"sc = sc + {wt}*real(sum({x}), real64)"]
    if a["type"] == "logical":
        return [f"lsum = lsum .neqv. {x}"]
    if a["type"] == "character":
        if not dims:
            return [f"isum = isum + {n + 1}*mod(sim_num({x}), 97)"]
        return [f"sc = sc + {wt}*real(sum(sim_num({x})), real64)"]
    if not dims:
        return [f"sc = sc + {wt}*sim_f(real({x}, real64))"]
    if dims[0] == "H":
        if len(dims) == 1:
            mean = f"sim_f(real({x}(i), real64))"
        elif len(dims) == 2:
            # weigh the levels so that orientation matters
            mean = (f"sum([(real(k, real64)*sim_f(real({x}(i, k), real64)), "
                    f"k = 1, size({x}, 2))])")
        else:
            mean = (f"sum([((real(k + 2*j, real64)*sim_f(real({x}(i, k, j), "
                    f"real64)), k = 1, size({x}, 2)), j = 1, size({x}, 3))])")
        return [f"do i = 1, size({x}, 1)",
                f"  acc(i) = acc(i) + {wt}*{mean}", "end do"]
    return [f"sc = sc + {wt}*sum([(real(k, real64)*sim_f(real({x}(k), "
            f"real64)), k = 1, size({x}, 1))])"]


def weight(n):
    """Weight of the n-th argument in the accumulators"""
    return [0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0, 1.125, 1.25,
            1.375, 1.5][n % 11]


def write(a, base):
    """Statements which compute an output"""
    x = a["local"]
    dims = a["dims"]
    inout = a["intent"] == "inout"
    if a.get("box"):
        old = f"mod(sim_bnum({x}), 50) + " if inout else ""
        return [f"{x} = new_{a['type']}({old}mod(isum, 97) + {base})"]
    if a["type"] == "integer":
        old = "mod({v}, 50) + " if inout else ""
        if not dims:
            return [f"{x} = {old.format(v=x)}mod(isum, 97) + {base}"]
        idx = ["i", "k", "j"][:len(dims)]
        el = f"{x}({','.join(idx)})"
        loops = [f"do {v} = 1, size({x}, {d + 1})"
                 for d, v in enumerate(idx)][::-1]
        return loops + [f"{el} = {old.format(v=el)}{base} + " +
                        " + ".join(idx)] + ["end do"] * len(dims)
    if a["type"] == "character":
        old = "mod(sim_num({v}), 50) + " if inout else ""
        if not dims:
            return [f"{x} = sim_txt({old.format(v=x)}mod(isum, 97) + {base})"]
        return [f"do i = 1, size({x}, 1)",
                f"  {x}(i) = sim_txt({old.format(v=x + '(i)')}{base} + i)",
                "end do"]
    if a["type"] == "logical":
        if inout:
            return [f"{x} = {x} .neqv. lsum"]
        return [f"{x} = .not. lsum"]
    knd = a["kind"]
    if not dims:
        val = f"{base}.0_real64 + sim_f(sc)"
        if inout:
            val += f" + 0.5_real64*sim_f(real({x}, real64))"
        return [f"{x} = real({val}, {knd})"]
    idx = ["i", "k", "j"][:len(dims)]
    el = f"{x}({','.join(idx)})"
    if dims[0] == "H":
        src = "acc(i) + sc"
        pos = "".join(f" + 0.5_real64*real({v}, real64)" for v in idx[1:])
    else:
        src = "sc"
        pos = "".join(f" + 0.5_real64*real({v}, real64)" for v in idx)
    val = f"{base}.0_real64 + sim_f({src}){pos}"
    if inout:
        val += f" + 0.5_real64*sim_f(real({el}, real64))"
    loops = [f"do {v} = 1, size({x}, {d + 1})"
             for d, v in enumerate(idx)][::-1]
    return loops + [f"{el} = real({val}, {knd})"] + ["end do"] * len(dims)


def href(v, idx=None):
    """How the host refers to its variable, or to one element"""
    out = ("hstate%" if v["in_ddt"] else "") + \
        (v["slice"]["parent"] if "slice" in v else v["local"])
    sub = list(idx) if idx else []
    if "slice" in v:
        sub = sub or [":"] * len(v["dims"])
        sub.insert(v["slice"]["pos"], str(v["slice"]["num"]))
    return out + (f"({','.join(sub)})" if sub else "")


def metaname(v):
    """The local name of a host variable in the metadata"""
    if "slice" not in v:
        return v["local"]
    sub = [":"] * len(v["dims"])
    sub.insert(v["slice"]["pos"], v["slice"]["index"])
    return f"{v['slice']['parent']}({','.join(sub)})"


def seven(v):
    """What a new array of the host is full of"""
    return "'7'" if v["type"] == "character" else "7"


def here(v):
    """A Fortran condition: does the host have <v> now?"""
    if "slice" in v:
        return ".true." if v["active"] is None or v["slice"]["here"] \
            else ".false."
    return f"allocated({href(v)})"


def host_module(w, ddt):
    """The host's data module"""
    out = ["module host_data", "  use ccpp_kinds, only: kind_phys, kind_sp",
           "  implicit none", "  public"]
    d = w["dims"]

    used = {v["slice"]["parent"] for v in w["host"] if "slice" in v}
    whole = [v for v in w["host"] if "slice" not in v] + [
        dict(p, type="real") for p in w.get("parents", ())
        if p["local"] in used]

    def decl(v):
        if v["dims"]:
            dim = "(" + ",".join(":" for _ in v["dims"]) + ")"
            # the table of a type or module is met with either kind of array
            return (f"{ftype(v['type'], v['kind'])}, "
                    f"allocatable :: {v['local']}{dim}")
        return f"{ftype(v['type'], v['kind'])} :: {v['local']}"
    if w.get("sizes"):
        inner = w.get("inner", "")
        for name, mine in (("host_inner_t", inner),
                           ("host_sizes_t", [e for e in w["sizes"]
                                             if e != inner])):
            if not mine:
                continue
            out.append(f"!> \\section arg_table_{name} Argument Table")
            out.append(f"!! \\htmlinclude {name}.html")
            out.append(f"  type {name}")
            out += [f"    integer :: {SIZENAME[e]} = {d[e]}" for e in mine]
            if name == "host_sizes_t" and inner:
                out.append("    type(host_inner_t) :: more")
            out.append(f"  end type {name}")
    if ddt:
        out.append("!> \\section arg_table_host_state_t Argument Table")
        out.append("!! \\htmlinclude host_state_t.html")
        out.append("  type host_state_t")
        for v in whole:
            if v["in_ddt"]:
                out.append("    " + decl(v))
        out.append("  end type host_state_t")
    out.append("!> \\section arg_table_host_data Argument Table")
    out.append("!! \\htmlinclude host_data.html")
    out.append(f"  integer, parameter :: ncols = {d['H']}, pver = {d['L']}, "
               f"pverp = {d['I']}, nthings = {d['E']}")
    for v in whole:
        if not v["in_ddt"]:
            out.append("  " + decl(v).replace("allocatable ::",
                                              "allocatable, target ::"))
    if ddt:
        out.append("  type(host_state_t), target :: hstate")
    if w.get("sizes"):
        out.append("  type(host_sizes_t) :: hsize")
    out.append("end module host_data")
    return "\n".join(out) + "\n"


def hostdim(v):
    """Bounds for the host's allocate statement"""
    return ", ".join(HOSTDIM.get(d, "3") for d in v["dims"])


def driver(w):
    """The host: reads a history and executes it"""
    o = []
    o.append("module simhost_mod")
    o.append("  use host_data")
    o.append("  use sim_core")
    if w.get("consts"):
        o.append("  use simaux")
    o.append("  use simhost_ccpp_cap")
    o.append("  implicit none")
    o.append("  type call_t")
    o.append("    integer :: phase, cs, ce")
    o.append("    character(len=64) :: suite, part")
    o.append("  end type call_t")
    o.append("  type(call_t) :: tcalls(256, 16)")
    o.append("  integer :: ntc(16)")
    o.append("contains")
    # fill
    o.append("  subroutine fill(seed)")
    o.append("    integer, intent(in) :: seed")
    o.append("    integer :: i, j, k, n")
    o.append("    i = 0; j = 0; k = 0; n = 0")
    for num, v in enumerate(w["host"]):
        if v.get("isflag") or v.get("isloop") or "isindex" in v:
            continue
        o += ["    " + t for t in fill(v, num)]
    o.append("  end subroutine fill")
    o.append("  subroutine sync()")
    o.append("    ! allocate what its flag calls for, free what it does not")
    for v in w["host"]:
        if "isindex" in v:
            o.append(f"    {href(v)} = {v['isindex']}")
    used = {v["slice"]["parent"] for v in w["host"] if "slice" in v}
    for v in w.get("parents", ()):
        if v["local"] in used:
            o.append(f"    if (.not. allocated({href(v)})) then")
            o.append(f"      allocate({href(v)}({hostdim(v)}))")
            o.append(f"      {href(v)} = 7")
            o.append("    end if")
    for v in w["host"]:
        if v["dims"] and "slice" not in v:
            cond = active_text(v["active"], lambda x: flagref(w, x)) \
                if v["active"] else ".true."
            o.append(f"    if ({cond}) then")
            o.append(f"      if (.not. allocated({href(v)})) then")
            o.append(f"        allocate({href(v)}({hostdim(v)}))")
            o.append(f"        {href(v)} = {seven(v)}")
            o.append("      end if")
            o.append(f"    else if (allocated({href(v)})) then")
            o.append(f"      deallocate({href(v)})")
            o.append("    end if")
    o.append("  end subroutine sync")
    o.append("  subroutine dump()")
    for v in w["host"]:
        if v["dims"]:
            o.append(f"    if ({here(v)}) then")
            o.append(f"      call sim_arg('{v['local']}', {href(v)})")
            o.append("    else")
            o.append(f"      call sim_absent('{v['local']}')")
            o.append("    end if")
        else:
            o.append(f"    call sim_arg('{v['local']}', {href(v)})")
    if w.get("consts"):
        o.append("    call cdump()")
    o.append("  end subroutine dump")
    o.append("  subroutine setflag(num, val)")
    o.append("    integer, intent(in) :: num, val")
    o.append("    select case (num)")
    for num, v in enumerate(w["host"]):
        if v.get("isflag"):
            o.append(f"    case ({num})")
            o.append(f"      {href(v)} = val == 1")
        elif v.get("isloop"):
            o.append(f"    case ({num})")
            o.append(f"      {href(v)} = val")
    o.append("    case default")
    o.append("      if (val > 9) stop 3")
    o.append("    end select")
    o.append("    call sync()")
    o.append("  end subroutine setflag")
    o.append("  subroutine resize(num, dim, delta)")
    o.append("    ! give an array of the host another size")
    o.append("    integer, intent(in) :: num, dim, delta")
    o.append("    integer :: more(3)")
    o.append("    more = 0")
    o.append("    if (dim > 0) more(dim) = delta")
    o.append("    select case (num)")
    for num, v in enumerate(w["host"]):
        if v["dims"] and "slice" not in v:
            ext = ", ".join(f"{HOSTDIM[d]} + more({i + 1})"
                            for i, d in enumerate(v["dims"]))
            o.append(f"    case ({num})")
            o.append(f"      if (allocated({href(v)})) then")
            o.append(f"        deallocate({href(v)})")
            o.append(f"        allocate({href(v)}({ext}))")
            o.append(f"        {href(v)} = {seven(v)}")
            o.append("      end if")
    o.append("    case default")
    o.append("      stop 3")
    o.append("    end select")
    o.append("  end subroutine resize")
    o.append("  subroutine docall(c)")
    o.append("    type(call_t), intent(in) :: c")
    o.append("    integer :: errflg, col_start, col_end")
    o.append("    character(len=512) :: errmsg")
    o.append("    character(len=700) :: s")
    o.append("    errflg = -77")
    o.append("    errmsg = 'unset'")
    o.append("    col_start = c%cs")
    o.append("    col_end = c%ce")
    o.append("    select case (c%phase)")
    for p in PHASES:
        o.append(f"    case ({PHNUM[p]})")
        if p == "run":
            o.append("      call simhost_ccpp_physics_run("
                     "suite_name=trim(c%suite), suite_part=trim(c%part), "
                     "col_start=col_start, col_end=col_end, "
                     "errmsg=errmsg, errflg=errflg)")
        else:
            o.append(f"      call simhost_ccpp_physics_{API[p]}("
                     "suite_name=trim(c%suite), "
                     "errmsg=errmsg, errflg=errflg)")
    o.append("    end select")
    o.append("    write(s, '(a,i0,a)') 'R ', errflg, ' |'//trim(errmsg)//'|'")
    o.append("    call sim_out(trim(s))")
    o.append("  end subroutine docall")
    o.append(LISTS)
    if w.get("consts"):
        o += constworld.driver(w)
    o.append("  !> \\section arg_table_simhost Argument Table")
    o.append("  !! \\htmlinclude simhost.html")
    o.append("  !!")
    o.append("  subroutine simhost()")
    o.append("  end subroutine simhost")
    o.append("end module simhost_mod")
    main = MAIN
    if w.get("consts"):
        main = MAIN.replace("    case default\n", constworld.CASES +
                            "    case default\n").replace(
            "lists, resize", "lists, resize, regc, cdel, cinit, cput, cwrong,"
            " cnum, cask, cprops, csuite")
    o.append(main)
    return "\n".join(o) + "\n"


def active_text(e, name=str):
    """A condition in Fortran"""
    if isinstance(e, str):
        return name(e)
    if e[0] == "not":
        return f".not. ({active_text(e[1], name)})"
    if e[0] == "cmp":
        mul, sub = (e[4:] + [1, 0])[:2]
        return (f"{mul}*" if mul != 1 else "") + name(e[2]) + \
            (f" - {sub}" if sub else "") + f" {e[1]} {e[3]}"
    return (f"({active_text(e[1], name)}) .{e[0]}. "
            f"{active_text(e[2], name)}")


def active_names(e):
    """The standard names in a condition"""
    if isinstance(e, str):
        return {e}
    if e[0] == "cmp":
        return {e[2]}
    return set().union(*[active_names(x) for x in e[1:]])


def active_value(e, val):
    """Evaluate a condition; val(standard name) is a number"""
    if isinstance(e, str):
        return val(e) == 1
    if e[0] == "not":
        return not active_value(e[1], val)
    if e[0] == "cmp":
        x, y = val(e[2]), e[3]
        if len(e) > 4:
            x = x * e[4] - e[5]
        return {"==": x == y, "/=": x != y, "<": x < y, ">": x > y,
                "<=": x <= y, ">=": x >= y}[e[1]]
    x, y = (active_value(z, val) for z in e[1:])
    return {"and": x and y, "or": x or y, "eqv": x == y}[e[0]]


def flagref(w, std):
    """The host's name of a flag or size"""
    for d, name in STDDIM.items():
        if name == std:
            return HOSTDIM[d]
    for v in w["host"]:
        if v["std"] == std:
            return href(v)
    raise KeyError(std)


def fill(v, num):
    """Statements which set a host variable from a seed"""
    x = href(v)
    if v["type"] == "logical":
        return [f"{x} = mod(seed + {num}, 2) == 0"]
    idx = ["i", "j", "k"][:len(v["dims"])]
    el = href(v, idx)
    mix = " + ".join([f"seed*{3 + num % 5}", str(num * 7)] +
                     [f"{i}*{m}" for i, m in zip(idx, (5, 11, 3))])
    if v["type"] == "integer":
        stm = f"{el} = mod({mix}, 41)"
    elif v["type"] == "character":
        stm = f"{el} = sim_txt(mod({mix}, 41))"
    else:
        stm = f"{el} = real(mod({mix}, 83), {v['kind']})*0.5_{v['kind']}"
    loops = [f"do {i} = 1, size({x}, {d + 1})"
             for d, i in enumerate(idx)][::-1]
    body_ = loops + [stm] + ["end do"] * len(idx)
    if v["dims"]:
        body_ = [f"if ({here(v)}) then"] + body_ + ["end if"]
    return body_


def fill_value(v, num, seed, idx):
    """The reference's version of fill"""
    mul = (5, 11, 3)
    mix = seed * (3 + num % 5) + num * 7 + sum(
        i * m for i, m in zip(idx, mul))
    if v["type"] == "logical":
        return 1 if (seed + num) % 2 == 0 else 0
    if v["type"] in ("integer", "character"):
        return mix % 41
    return (mix % 83) * 0.5


LISTS = """  subroutine outlist(what, l, errmsg, errflg)
    character(len=*), intent(in) :: what
    character(len=*), allocatable, intent(in) :: l(:)
    character(len=*), intent(in) :: errmsg
    integer, intent(in) :: errflg
    character(len=40) :: b
    integer :: i, n
    n = -1
    if (allocated(l)) n = size(l)
    write(b, '(i0,1x,i0)') errflg, n
    call sim_out('L '//what//' '//trim(b)//' |'//trim(errmsg)//'|')
    do i = 1, n
      call sim_out('l '//trim(l(i)))
    end do
  end subroutine outlist
  subroutine lists(what, suite, opt)
    ! opt: 0 absent, 1 true, 2 false
    character(len=*), intent(in) :: what, suite
    integer, intent(in) :: opt(3)
    character(len=128), allocatable :: l(:)
    character(len=512) :: errmsg
    logical, target :: val(3)
    logical, pointer :: pin, pout, pel
    integer :: errflg
    errmsg = 'unset'
    errflg = -77
    val = opt == 1
    pin => null()
    pout => null()
    pel => null()
    if (opt(1) > 0) pin => val(1)
    if (opt(2) > 0) pout => val(2)
    if (opt(3) > 0) pel => val(3)
    select case (what)
    case ('suites')
      errflg = 0
      errmsg = ''
      call ccpp_physics_suite_list(l)
    case ('parts')
      call ccpp_physics_suite_part_list(suite, l, errmsg, errflg)
    case ('schemes')
      call ccpp_physics_suite_schemes(suite, l, errmsg, errflg)
    case ('variables')
      call ccpp_physics_suite_variables(suite, l, errmsg, errflg, &
           input_vars=pin, output_vars=pout, struct_elements=pel)
    end select
    call outlist(what, l, errmsg, errflg)
  end subroutine lists"""

MAIN = """
subroutine sim_task_body(id) bind(c)
  use, intrinsic :: iso_c_binding
  use simhost_mod
  implicit none
  integer(c_int), value :: id
  integer :: i
  do i = 1, ntc(id)
    call docall(tcalls(i, id))
  end do
end subroutine sim_task_body

program simdriver
  use, intrinsic :: iso_c_binding
  use simhost_mod, only: call_t, tcalls, ntc, sync, dump, fill, setflag, docall, lists, resize
  use sim_core
  implicit none
  interface
    subroutine sim_run_tasks(n) bind(c)
      import :: c_int
      integer(c_int), value :: n
    end subroutine
    subroutine sim_sched_add(n) bind(c)
      import :: c_int
      integer(c_int), value :: n
    end subroutine
    subroutine sim_sched_reset() bind(c)
    end subroutine
    function sim_points() bind(c) result(r)
      import :: c_long
      integer(c_long) :: r
    end function
    function sim_switches() bind(c) result(r)
      import :: c_long
      integer(c_long) :: r
    end function
    function sim_hash() bind(c) result(r)
      import :: c_long
      integer(c_long) :: r
    end function
    function sim_live() bind(c) result(r)
      import :: c_long
      integer(c_long) :: r
    end function
  end interface
  character(len=800) :: line
  character(len=16) :: cmd
  character(len=600) :: msg
  character(len=64) :: suite, part
  integer :: ios, a, b, c, d, e, i, n
  integer :: sched(64)
  type(call_t) :: cl
  call sync()
  ntc = 0
  n = 0
  do
    read(*, '(a)', iostat=ios) line
    if (ios /= 0) exit
    n = n + 1
    read(line, *) cmd
    write(msg, '(a,i0)') '# ', n
    call sim_out(trim(msg))
    select case (trim(cmd))
    case ('fill')
      read(line, *) cmd, a
      call fill(a)
    case ('flag')
      read(line, *) cmd, a, b
      call setflag(a, b)
    case ('size')
      read(line, *) cmd, a, b, c
      call resize(a, b, c)
    case ('fault')
      read(line, *) cmd, a, b, c, d, e, i
      msg = line(index(line, '|') + 1:)
      call sim_add_fault(a, b, c, d, e, i, trim(msg))
    case ('nofault')
      call sim_clear_faults()
    case ('call')
      read(line, *) cmd, cl%phase, cl%suite, cl%part, cl%cs, cl%ce
      if (cl%suite == '-') cl%suite = ' '
      if (cl%part == '-') cl%part = ' '
      call docall(cl)
    case ('task')
      read(line, *) cmd, a, cl%phase, cl%suite, cl%part, cl%cs, cl%ce
      ntc(a) = ntc(a) + 1
      tcalls(ntc(a), a) = cl
    case ('sched')
      read(line, *) cmd, a
      read(line, *) cmd, a, sched(1:a)
      do b = 1, a
        call sim_sched_add(int(sched(b), c_int))
      end do
    case ('go')
      read(line, *) cmd, a
      call sim_run_tasks(int(a, c_int))
      ntc = 0
      call sim_sched_reset()
      write(msg, '(a,i0,1x,i0,1x,i0)') 'G ', sim_points(), sim_switches(), sim_hash()
      call sim_out(trim(msg))
    case ('dump')
      call dump()
    case ('ask')
      read(line, *) cmd, part, suite, a, b, c
      if (suite == '-') suite = ' '
      call lists(trim(part), trim(suite), [a, b, c])
    case ('live')
      write(msg, '(a,i0)') 'M ', sim_live()
      call sim_out(trim(msg))
    case default
      stop 4
    end select
  end do
  call sim_out('end')
end program simdriver
"""
