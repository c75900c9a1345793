"""Simulation of the Fortran runtime library (hash table, constituent
properties, model constituents object): a seeded history of operations with
injected allocation failures and stale caller error codes runs against the real
library in one process; a small reference model predicts every result."""
import os
import random
import resource
import subprocess

from .core import REPO, VERIF, HarnessError, Result, Sim, digest, shrink_list

HUGE = 1.7976931348623157e308
LAYER = "vertical_layer_dimension"
IFACE = "vertical_interface_dimension"

FFLAGS = ["-cpp", "-g", "-O0", "-fcheck=bounds,pointer,mem,do",
          "-ffree-line-length-none"]


def run_cmd(cmd, cwd, what):
    """Run a build command; return None or its output on failure"""
    proc = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=300)
    if proc.returncode:
        return f"{what}: {' '.join(cmd)}\n{proc.stdout[-3000:]}"
    return None


def build_driver(work):
    """Compile the library from /repo and the driver; return error text or None"""
    fdir = os.path.join(VERIF, "fortran")
    err = run_cmd(["gcc", "-c", "-O1", "-fno-builtin", os.path.join(fdir, "simalloc.c")], work,
                  "allocation seam")
    if err:
        raise HarnessError(err)
    for src in [os.path.join(fdir, "ccpp_kinds.F90"),
                os.path.join(REPO, "src", "ccpp_hashable.F90"),
                os.path.join(REPO, "src", "ccpp_hash_table.F90"),
                os.path.join(REPO, "src", "ccpp_constituent_prop_mod.F90"),
                os.path.join(fdir, "libdriver.F90")]:
        err = run_cmd(["gfortran", "-c"] + FFLAGS + [src], work, "compile")
        if err:
            return err
    objs = ["simalloc.o", "ccpp_kinds.o", "ccpp_hashable.o",
            "ccpp_hash_table.o", "ccpp_constituent_prop_mod.o", "libdriver.o"]
    return run_cmd(["gfortran", "-o", "drv"] + objs +
                   ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"],
                   work, "link")


def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(work, script):
    """Run a script; return (returncode, lines grouped by op number, stderr)"""
    env = {"PATH": "/usr/bin:/bin",
           "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
    proc = subprocess.run([os.path.join(work, "drv")],
                          input="\n".join(script) + "\n",
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, env=env, preexec_fn=_limits, timeout=600,
                          errors="replace")
    groups = {}
    for line in proc.stdout.splitlines():
        num, _, rest = line.strip().partition(" ")
        if num.isdigit():
            groups.setdefault(int(num), []).append(rest.strip())
    return proc.returncode, groups, proc.stderr


class Prop:
    """Reference model of one constituent properties object"""

    def __init__(self):
        self.inst = False
        self.clear()

    def clear(self):
        """State of a fresh object"""
        self.inst = False
        self.std = self.long = self.units = self.vdim = ""
        self.adv = self.thermo = self.water = False
        self.minv, self.mm, self.defv = 0.0, HUGE, HUGE
        self.index = -1
        self.mix = "dry"

    def copy_from(self, other):
        """Assignment"""
        self.__dict__.update(other.__dict__)

    def show(self):
        """Lines the driver prints for this object"""
        if not self.inst:
            return ["uninstantiated"]
        kind = "mass"
        if "volume_mixing_ratio" in self.std:
            kind = "vol"
        elif "number_concentration" in self.std:
            kind = "num"
        flags = [self.adv, self.thermo, self.water, kind == "mass",
                 kind == "vol", kind == "num", self.mix == "dry",
                 self.mix == "moist", self.mix == "wet"]
        dims = [self.vdim == LAYER, self.vdim == IFACE, self.vdim == ""]
        tf = lambda v: "".join("T" if x else "F" for x in v)
        return ["std " + self.std, "long " + self.long, "units " + self.units,
                ("vdim " + self.vdim).strip(), "flags " + tf(flags),
                "dims " + tf(dims),
                ("vals", self.minv, self.mm, self.defv,
                 "T" if self.defv != HUGE else "F"),
                f"index {self.index} 0"]


def same(want, got):
    """Compare one predicted line with an observed one"""
    if want is None:
        return True
    if callable(want):
        return want(got)
    if isinstance(want, tuple):
        parts = got.split()
        if len(parts) != len(want):
            return False
        for w, g in zip(want, parts):
            if isinstance(w, float):
                try:
                    if float(g) != w:
                        return False
                except ValueError:
                    return False
            elif str(w) != g:
                return False
        return True
    return want == got


class Store:
    """Reference model of one model-constituents object"""

    def __init__(self):
        self.reset()
        self.init = False

    def reset(self):
        """State after reset"""
        self.init = False
        self.props = []         # slot numbers, in order of registration
        self.locked = False
        self.dlocked = False
        self.order = []         # slot by index after locking
        self.bad = False        # a constituent that cannot be locked
        self.nc = self.nl = 0
        self.data = {}          # slot -> dict (i,j) -> value or None (unknown)
        self.minv = {}
        self.tried = False


class LibModel:
    """Predicts the driver's output op by op"""

    def __init__(self):
        self.ht = [None, None]
        self.slot = {}
        self.st = [Store(), Store()]
        self.live = {}

    # -- hash tables
    def hash_op(self, op):
        """Predict a hash table operation"""
        name, t = op[0], int(op[1]) - 1
        tab = self.ht[t]
        if name in ("hinit", "hinitk"):
            self.ht[t] = {}
            return ["ok"]
        if name == "hisinit":
            return ["T" if tab is not None else "F"]
        if name in ("haddc", "haddcn"):
            dup = op[2] in tab
            if not dup:
                tab[op[2]] = ("key", op[2])
            return ["ok"] if name == "haddcn" else ["F" if dup else "T"]
        if name == "haddi":
            dup = op[2] in tab
            if not dup:
                tab[op[2]] = ("int", op[2])
            return ["F" if dup else "T"]
        if name in ("hget", "hgetn"):
            ent = tab.get(op[2])
            if ent is None:
                return ["none"]
            if ent[0] == "int":
                return [f"int {ent[1]} {ent[1]}"]
            return ["key " + ent[1]]
        if name == "hnum":
            return [str(len(tab) if tab is not None else 0)]
        if name == "hiter":
            want = sorted(f"item {k} {k}" for k in tab)
            return ("sorted", want, ["F", "end"])
        if name == "hclear":
            self.ht[t] = None
            return ["ok"]
        raise HarnessError(name)

    # -- constituent properties
    def prop_op(self, op):
        """Predict a constituent properties operation"""
        name = op[0]
        s = op[1]
        p = self.slot.get(s)
        if name == "inst":
            if p is None:
                p = self.slot[s] = Prop()
            (_, _, std, lng, units, vdim, adv, dv, mv, mm, wat, mix, _) = op
            if p.inst:
                # refused, and (as documented by the code path) cleared
                p.clear()
                return ["ERR"]
            if mix not in ("-", "wet", "moist", "dry"):
                p.clear()
                return ["ERR"]
            p.clear()
            p.inst = True
            p.std, p.long, p.units = std, lng, units
            p.vdim = "" if vdim == "." else vdim
            p.adv = adv == "1"
            p.water = wat == "1"
            if dv != "-":
                p.defv = float(dv)
            if mv != "-":
                p.minv = float(mv)
            if mm != "-":
                p.mm = float(mm)
            if mix != "-":
                p.mix = mix
            elif "wrt_moist_air_and_condensed_water" in std:
                p.mix = "wet"
            elif "wrt_moist_air" in std:
                p.mix = "moist"
            else:
                p.mix = "dry"
            return ["OK"]
        if name == "dealloc":
            if p is not None:
                p.clear()
            return ["ok"]
        if name == "free":
            self.slot.pop(s, None)
            return ["ok"]
        if name == "get":
            return p.show()
        if name in ("setthermo", "setwater", "setmin", "setmm", "setindex"):
            if not p.inst:
                return ["ERR"]
            return self._set(p, name, op[2])
        if name == "copy":
            q = self.slot.get(op[2])
            if q is None:
                q = self.slot[op[2]] = Prop()
            q.copy_from(p)
            return ["ok"]
        if name == "equiv":
            q = self.slot[op[2]]
            if not (p.inst and q.inst):
                return [lambda g: g.endswith(" F")]
            eq = all(getattr(p, a) == getattr(q, a) for a in
                     ("std", "long", "units", "vdim", "adv", "thermo", "water",
                      "minv", "mm", "defv", "mix"))
            return ["0 T" if eq else "0 F"]
        raise HarnessError(name)

    @staticmethod
    def _set(p, name, val):
        if name == "setthermo":
            p.thermo = val == "1"
        elif name == "setwater":
            p.water = val == "1"
        elif name == "setmin":
            p.minv = float(val)
        elif name == "setmm":
            p.mm = float(val)
        elif p.index != -1:
            return ["ERR"]
        else:
            p.index = int(val)
        return ["OK"]

    # -- model constituents
    def _match(self, p, filt):
        return all(f == "-" or (f == "1") == v
                   for f, v in zip(filt, (p.adv, p.thermo, p.water)))

    def store_op(self, op):
        """Predict a model constituents operation"""
        name, m = op[0], int(op[1]) - 1
        st = self.st[m]
        if name == "minit":
            self._drop_freed(st)
            st.reset()
            st.init = True
            return ["ok"]
        if name == "mreset":
            self._drop_freed(st)
            st.reset()
            return ["ok"]
        if name == "mdrop":
            for s in op[2:]:
                self.slot.pop(s, None)
            return ["ok"]
        if name == "mstate":
            return ["".join("T" if x else "F" for x in
                            (st.locked, st.dlocked, st.locked and st.dlocked))]
        if name == "mok":
            okay = st.init and not (st.locked or st.dlocked)
            return ["T 0" if okay else "F 1"]
        if name == "madd":
            s = op[2]
            if not st.init or st.locked or st.dlocked:
                return ["ERR"]
            p = self.slot[s]
            for o in st.props:
                q = self.slot[o]
                if q.std == p.std:
                    match = (q.adv, q.thermo, q.water, q.units) == \
                            (p.adv, p.thermo, p.water, p.units)
                    return ["OK" if match else "ERR"]
            st.props.append(s)
            if p.vdim != LAYER:
                st.bad = True
                return [None]
            return ["OK"]
        if name == "mlock":
            if not st.init or st.locked:
                return ["ERR"]
            if st.bad or any(self.slot[s].index != -1 for s in st.props):
                st.tried = True
                return ["ERR"]
            st.locked = True
            return ["OK"]
        if name == "mlockdata":
            if not st.locked or st.dlocked:
                return ["ERR"]
            st.dlocked = True
            st.nc, st.nl = int(op[2]), int(op[3])
            for s in st.props:
                st.data[s] = {(i, j): self.slot[s].defv
                              for i in range(1, st.nc + 1)
                              for j in range(1, st.nl + 1)}
                st.minv[s] = self.slot[s].minv
            return ["OK"]
        if name == "mcounts":
            return [None]
        if name == "mnum":
            if not st.locked:
                return [lambda g: g.split()[-1] == "0"]
            cnt = sum(1 for s in st.props
                      if self._match(self.slot[s], op[2:5]))
            return [f"0 {cnt}"]
        if name == "mindex":
            if not st.locked:
                return [lambda g: g.split()[-1] == "-1"]
            for s in st.props:
                if self.slot[s].std == op[2]:
                    return ("index", s, st)
            return [lambda g: g.split()[-1] == "-1"]
        if name == "mmeta":
            if not st.locked:
                return ("skip",)
            for s in st.props:
                if self.slot[s].std == op[2]:
                    return ["0"] + self.slot[s].show()
            return ["1"]
        if name == "mprops":
            if not st.locked:
                return ["null"]
            return ("props", st)
        if name == "mpset":
            if not st.locked:
                return ["null"]
            s = st.order[int(op[3]) - 1]
            return self._set(self.slot[s], "set" + op[2], op[4])
        if name == "mdump":
            return ("dump", st)
        if name == "mwrite":
            if not (st.locked and st.dlocked):
                return ["null"]
            for k, s in enumerate(st.order):
                for (i, j) in st.data[s]:
                    st.data[s][(i, j)] = float(op[2]) + i + 100*j + 10000*(k+1)
            return ["ok"]
        if name in ("mcopyin", "mcopyout"):
            return self._copy(name, op, st)
        raise HarnessError(name)

    def _drop_freed(self, st):
        """Resetting a locked object releases the registered objects"""
        if st.locked or st.tried:
            for s in st.props:
                self.slot.pop(s, None)

    def _copy(self, name, op, st):
        if not (st.locked and st.dlocked):
            return ("noerr-or-err",)
        filt, (nc, nl, nk) = op[2:5], [int(x) for x in op[5:8]]
        match = [s for s in st.order if self._match(self.slot[s], filt)]
        bad = bool(match) and (len(match) > nk or nl != st.nl)
        if name == "mcopyin":
            return ("copyin", match, nk, nc, nl, bad, st)
        base = float(op[9])
        for k, s in enumerate(match):
            for (i, j) in st.data[s]:
                if bad:
                    st.data[s][(i, j)] = None
                else:
                    st.data[s][(i, j)] = base + i + 100*j + 10000*(k+1)
        return ["ERR" if bad else "OK"]

    def predict(self, op):
        """Predict one operation"""
        if op[0].startswith("h"):
            return self.hash_op(op)
        if op[0] in ("failat",):
            return ["ok"]
        if op[0] == "disarm":
            return [None]
        if op[0] == "live":
            return ("live", op[1] if len(op) > 1 else None)
        if op[0].startswith("m") :
            return self.store_op(op)
        return self.prop_op(op)

    def check(self, want, got):
        """Compare prediction <want> with lines <got>; return None or text"""
        if isinstance(want, list):
            if len(want) != len(got):
                return f"expected {want}, observed {got}"
            for w, g in zip(want, got):
                if not same(w, g):
                    return f"expected {w!r}, observed {g!r}"
            return None
        kind = want[0]
        if kind == "skip":
            return None
        if kind == "sorted":
            items = sorted(g for g in got if g.startswith("item "))
            tail = [g for g in got if not g.startswith("item ")]
            if items != want[1]:
                return f"iteration visited {items}, table holds {want[1]}"
            if tail != want[2]:
                return f"iterator after the end: {tail}"
            return None
        if kind == "index":
            _, s, st = want
            err, ind = got[0].split()
            good = err == "0" and 1 <= int(ind) <= len(st.props)
            if good:
                self._learn(st, s, int(ind))
                good = self.slot[s].index == int(ind)
            if good:
                return None
            return (f"index of '{self.slot[s].std}' reported as {got[0]}, "
                    f"stored index {self.slot[s].index}")
        if kind == "props":
            return self._check_props(want[1], got)
        if kind == "dump":
            return self._check_dump(want[1], got)
        if kind == "copyin":
            return self._check_copyin(want, got)
        if kind == "noerr-or-err":
            if got[0] == "OK":
                vals = {g for g in got[2:]}
                if vals - {"v  -0.7000000000000000E+001",
                           "v  -7.0000000000000000E+000"}:
                    return "copy on an object without data changed the array"
            return None
        if kind == "live":
            tag, num = want[1], int(got[0])
            if tag:
                if tag in self.live and self.live[tag] != num:
                    return (f"memory in use after identical cycles grew from "
                            f"{self.live[tag]} to {num} bytes")
                self.live[tag] = num
            return None
        raise HarnessError(kind)

    def _learn(self, st, s, ind):
        """The order is the library's choice: learn it at first sight"""
        if self.slot[s].index == -1:
            self.slot[s].index = ind

    def _check_props(self, st, got):
        if got[0] != str(len(st.props)):
            return f"{got[0]} constituents reported, {len(st.props)} registered"
        byname = {self.slot[s].std: s for s in st.props}
        order = []
        pos = 1
        for num in range(len(st.props)):
            block = got[pos:pos + 8]
            pos += 8
            std = block[0][4:] if block else ""
            s = byname.get(std)
            if s is None or s in order:
                return f"position {num + 1} holds {std!r} (unknown or repeated)"
            order.append(s)
            self._learn(st, s, num + 1)
            if self.slot[s].index != num + 1:
                return (f"constituent {std!r} with index {self.slot[s].index} "
                        f"is at position {num + 1}")
            want = self.slot[s].show()
            for w, g in zip(want, block):
                if not same(w, g):
                    return f"constituent {std!r}: expected {w!r}, observed {g!r}"
        if len(got) != pos:
            return "trailing output: " + repr(got[pos:])
        nadv = sum(1 for s in st.props if self.slot[s].adv)
        for num, s in enumerate(order):
            if self.slot[s].adv != (num < nadv):
                return ("advected constituents are not packed first: "
                        + ", ".join(self.slot[x].std + ("+" if self.slot[x].adv
                                                        else "-")
                                    for x in order))
        st.order = order
        return None

    def _check_dump(self, st, got):
        if not (st.locked and st.dlocked):
            return None if got == ["null", "null"] else \
                f"data reported before they are locked: {got[:3]}"
        n = len(st.order)
        want = [f"shape {st.nc} {st.nl} {n}"]
        want += [("v", st.data[s][(i, j)]) if st.data[s][(i, j)] is not None
                 else None for s in st.order for j in range(1, st.nl + 1)
                 for i in range(1, st.nc + 1)]
        want += [f"shape {st.nc} {st.nl} {n}"]
        want += [("v", 0.0)] * (n * st.nc * st.nl)
        want += [("min", str(k + 1), st.minv[s])
                 for k, s in enumerate(st.order)]
        adv = [s for s in st.order if self.slot[s].adv]
        want += [f"adv {st.nc} {st.nl} {len(adv)}"]
        for k, s in enumerate(adv):
            if not (st.nc and st.nl):
                break
            val = st.data[s].get((1, 1), 0.0)
            want.append(("adv1", str(k + 1), val) if val is not None else None)
        if len(want) != len(got):
            return f"dump has {len(got)} lines, expected {len(want)}: {got[:4]}"
        for pos, (w, g) in enumerate(zip(want, got)):
            if not same(w, g):
                return f"dump line {pos}: expected {w}, observed {g!r}"
        return None

    def _check_copyin(self, want, got):
        _, match, nk, nc, nl, bad, st = want
        if got[0] != ("ERR" if bad else "OK"):
            return f"copy_in: expected {'ERR' if bad else 'OK'}, got {got[0]}"
        if bad:
            return None
        vals = got[2:]
        pos = 0
        for k in range(nk):
            for j in range(1, nl + 1):
                for i in range(1, nc + 1):
                    if k < len(match):
                        exp = st.data[match[k]][(i, j)]
                        if exp is not None and not same(("v", exp), vals[pos]):
                            return (f"copy_in element ({i},{j},{k+1}): expected"
                                    f" {exp}, observed {vals[pos]}")
                    pos += 1
        return None


# ------------------------------------------------------------- generators

STALE = ["0", "0", "0", "5", "-1", "-2", "17"]


RULES = {
    "L01": ("random operations on two tables with 1 to 1024 buckets; " "non-trivial: at least one insertion was observed through " "a lookup or an iteration"),
    "L02": ("random instantiate/set/copy/compare/release/reuse of up " "to six metadata objects with stale caller error codes; " "non-trivial: some object was read back"),
    "L03": ("random life cycles (initialize, register, lock, query, " "set, reset, reuse) of two registries with duplicate, " "incompatible and unlockable constituents, calls in any " "order and stale caller error codes; non-trivial: at " "least one lock was attempted"),
    "L04": ("random constituents, then random gather/update/pointer " "writes with random filters and array shapes (also wrong " "ones) and attribute changes in between; non-trivial: the " "data were locked"),
    "L05": ("a registry or field-data history in which the k-th " "allocation of one to three chosen calls fails; " "non-trivial: at least one injected failure was consumed"),
}


class LibSim(Sim):
    """Histories over the runtime library"""

    components_real = ["src/ccpp_hashable.F90", "src/ccpp_hash_table.F90",
                       "src/ccpp_constituent_prop_mod.F90 (gfortran, bounds "
                       "and pointer checks on)"]
    components_stub = ["ccpp_kinds (stand-in)", "malloc/calloc/realloc "
                       "(link-time seam which fails the k-th call)"]
    measure = ("distinct digests of the whole observed history; one run is one "
               "process executing one history")
    assumptions = ["Allocations made inside libgfortran itself are not failed",
                   "gfortran 13 -O0"]
    time_unit = "operations"

    def __init__(self, prop, tier="quick"):
        super().__init__(prop, tier)
        self.rule = RULES[prop]

    def runs(self, tier):
        base = {"L01": 5000, "L02": 5000, "L03": 5000, "L04": 5000,
                "L05": 5000}[self.prop]
        return base if tier == "quick" else base * 25

    def prepare(self):
        err = build_driver(self.work)
        if err:
            return [("build-failed", "the runtime library does not compile:\n"
                     + err)]
        return None

    # ---- generation
    def generate(self, seed):
        rng = random.Random(seed)
        fn = {"L01": self.gen_hash, "L02": self.gen_prop,
              "L03": self.gen_store, "L04": self.gen_data,
              "L05": self.gen_alloc}[self.prop]
        return {"ops": fn(rng)}

    def gen_hash(self, rng):
        """Two tables, few buckets, clashing keys"""
        alpha = rng.choice(["ab", "abcdef_", "xyz0123_", "aA"])
        maxlen = rng.choice([2, 3, 6, 40, 260])
        pool = ["".join(rng.choice(alpha) for _ in range(rng.randint(1, maxlen)))
                for _ in range(rng.randint(3, 30))]
        # permutations of one another collide often
        for _ in range(rng.randint(0, 10)):
            w = list(rng.choice(pool))
            rng.shuffle(w)
            pool.append("".join(w))
        ints = [str(rng.choice([1, -1]) * rng.randint(0, 10 ** rng.randint(1, 9)))
                for _ in range(8)]
        ints = [str(int(x)) for x in ints]
        pool += [str(rng.randint(0, 9))]
        up = [False, False]
        ops = []
        for _ in range(rng.randint(5, 90)):
            t = rng.randint(0, 1)
            if not up[t] or rng.random() < 0.03:
                if up[t] and rng.random() < 0.5:
                    ops.append(["hclear", str(t + 1)])
                    up[t] = False
                    ops.append(["hisinit", str(t + 1)])
                    ops.append(["hnum", str(t + 1)])
                    continue
                if rng.random() < 0.2:
                    ops.append(["hinitk", str(t + 1), str(rng.choice(
                        [0, 0, 1, 2, 3, 5, 10])), str(rng.randint(0, 99999))])
                else:
                    ops.append(["hinit", str(t + 1), str(rng.choice(
                        [0, 0, 1, 2, 3, 5, 10]))])
                up[t] = True
                continue
            r = rng.random()
            if r < 0.4:
                ops.append([rng.choice(["haddc", "haddc", "haddcn"]),
                            str(t + 1), rng.choice(pool)])
            elif r < 0.5:
                ops.append(["haddi", str(t + 1), rng.choice(ints)])
            elif r < 0.75:
                ops.append([rng.choice(["hget", "hgetn"]), str(t + 1),
                            rng.choice(pool + ints)])
            elif r < 0.85:
                ops.append(["hnum", str(t + 1)])
            else:
                ops.append(["hiter", str(t + 1)])
        for t in (0, 1):
            if up[t]:
                ops += [["hiter", str(t + 1)], ["hnum", str(t + 1)]]
        # identical cycles must not accumulate memory
        cyc = [["hinit", "1", "1"]] + [["haddc", "1", k] for k in
                                       dict.fromkeys(pool[:6])]
        if rng.random() < 0.3:
            # entries are the caller's, so only lookups and iteration here
            ops += [["hclear", "1"], ["hclear", "2"]] if all(up) else []
        return ops

    def rand_inst(self, rng, slot, names, bad=0.06):
        """A random instantiate operation"""
        std = rng.choice(names)
        vdim = LAYER if rng.random() > bad else rng.choice([IFACE, ".", "foo"])
        val = lambda c: rng.choice(c)
        return ["inst", slot, std, val(["water", "x", "ozone_mixing"]),
                val(["kg", "kg", "mol", "ppmv"]), vdim,
                val(["-", "0", "1", "1"]),
                val(["-", "-", "0.", "1.5", "273.15", "-3.e-9"]),
                val(["-", "-", "0.", "1.e-12", "2."]),
                val(["-", "18.", "0.5"]), val(["-", "0", "1"]),
                val(["-", "-", "-", "wet", "moist", "dry", "bogus"])
                if rng.random() < 0.5 else "-", rng.choice(STALE)]

    def names(self, rng):
        """A pool of standard names"""
        base = ["cloud_liquid", "ozone_volume_mixing_ratio",
                "ice_number_concentration", "q_wrt_moist_air",
                "q_wrt_moist_air_and_condensed_water", "dust", "dust2", "tsud"]
        base += ["c" + "".join(rng.choice("abc") for _ in range(3))
                 for _ in range(rng.randint(0, 12))]
        if rng.random() < 0.15:
            base.append("n" * rng.choice([200, 230, 250]))
        rng.shuffle(base)
        return base[:rng.randint(2, len(base))]

    def gen_prop(self, rng):
        """Metadata objects: instantiate, change, copy, release, reuse"""
        names = self.names(rng)
        used = {}
        ops = []
        for _ in range(rng.randint(5, 60)):
            s = str(rng.randint(1, 6))
            r = rng.random()
            if s not in used or r < 0.2:
                ops.append(self.rand_inst(rng, s, names, 0.3))
                used[s] = 1
            elif r < 0.35:
                ops.append(["dealloc", s])
            elif r < 0.4:
                ops.append(["free", s])
                used.pop(s)
                continue
            elif r < 0.5:
                o = str(rng.randint(1, 6))
                if o != s:
                    ops.append(["copy", s, o])
                    used[o] = 1
            elif r < 0.6:
                o = rng.choice(sorted(used))
                ops.append(["equiv", s, o])
            elif r < 0.85:
                what = rng.choice(["setthermo", "setwater", "setmin", "setmm",
                                   "setindex"])
                val = {"setthermo": ["0", "1"], "setwater": ["0", "1"],
                       "setmin": ["0.", "1.e-3", "7."],
                       "setmm": ["18.", "44.01"],
                       "setindex": ["1", "4", "12"]}[what]
                ops.append([what, s, rng.choice(val), rng.choice(STALE)])
            ops.append(["get", s])
        # a copy from an uninstantiated object is outside the contract
        return self.legalise(ops)

    def legalise(self, ops):
        """Drop operations whose precondition the model says does not hold"""
        model = LibModel()
        out = []
        for op in ops:
            if len(op) < 2 or op[0] == "failat":
                out.append(op)
                continue
            p = model.slot.get(op[1]) if not op[0].startswith(("m", "h")) \
                else None
            if op[0] in ("get", "setthermo", "setwater", "setmin", "setmm",
                         "setindex", "copy", "equiv", "dealloc") and p is None:
                continue
            if op[0] == "copy" and not p.inst:
                continue
            if op[0] == "equiv" and op[2] not in model.slot:
                continue
            if op[0] == "madd":
                q = model.slot.get(op[2])
                if q is None or not q.inst or any(
                        op[2] in st.props for st in model.st):
                    continue
            if not op[0].startswith(("m", "h")) and op[0] not in (
                    "get", "equiv", "failat", "disarm", "live") and any(
                        op[1] in st.props for st in model.st):
                # objects handed to the registry are no longer the caller's
                continue
            if op[0] == "copy" and any(op[2] in st.props for st in model.st):
                continue
            if op[0] == "mcopyin" or op[0] == "mcopyout":
                st = model.st[int(op[1]) - 1]
                if st.locked and st.dlocked:
                    op = op[:5] + [str(st.nc)] + op[6:]
            if op[0] == "mpset":
                st = model.st[int(op[1]) - 1]
                if st.locked and not 1 <= int(op[3]) <= len(st.props):
                    continue
                if st.locked and not st.order:
                    st.order = list(st.props)   # real order learnt at run time
            if op[0] in ("mwrite", "mcopyin", "mcopyout", "mdump") and \
                    model.st[int(op[1]) - 1].locked and \
                    not model.st[int(op[1]) - 1].order:
                model.st[int(op[1]) - 1].order = \
                    list(model.st[int(op[1]) - 1].props)
            drop = []
            if op[0] in ("minit", "mreset"):
                st = model.st[int(op[1]) - 1]
                if st.locked or st.tried:
                    drop = list(st.props)
            model.predict(op)
            out.append(op)
            if op[0] == "mlock" and model.st[int(op[1]) - 1].locked and \
                    not model.st[int(op[1]) - 1].order:
                out.append(["mprops", op[1]])   # learn the order at once
            if drop:
                out.append(["mdrop", op[1]] + drop)
        return out

    def gen_store(self, rng, faults=False):
        """Registry: add, duplicate, lock, query, reset, reuse"""
        names = self.names(rng)
        ops = []
        nslot = [0]

        def life(m):
            ops.append(["minit", m, str(rng.choice([0, 1, 3, 8, 40]))])
            for _ in range(rng.choice([0, 1, 2, 4, 8, 14])):
                nslot[0] += 1
                s = str(nslot[0] % 60 + 1)
                ops.append(self.rand_inst(rng, s, names,
                                          0.0 if rng.random() < 0.9 else 0.1))
                if rng.random() < 0.15:
                    ops.append(["setthermo", s, "1", "0"])
                if rng.random() < 0.9:
                    ops.append(["madd", m, s, rng.choice(STALE)])
                noise(m, 0.15)
            if rng.random() < 0.92:
                ops.append(["mlock", m, rng.choice(STALE)])
            noise(m, 0.9)
            if rng.random() < 0.5:
                ops.append(["mlockdata", m, str(rng.randint(1, 3)),
                            str(rng.randint(1, 3)), rng.choice(STALE)])
            noise(m, 0.9)

        def noise(m, prob):
            while rng.random() < prob:
                r = rng.random()
                if r < 0.25:
                    ops.append(["mindex", m, rng.choice(names + ["absent"]),
                                rng.choice(STALE)])
                elif r < 0.4:
                    ops.append(["mmeta", m, rng.choice(names + ["absent"]),
                                "0"])
                elif r < 0.55:
                    ops.append(["mnum", m] + [rng.choice("--01")
                                              for _ in range(3)]
                               + [rng.choice(STALE)])
                elif r < 0.65:
                    ops.append(["mprops", m])
                elif r < 0.75:
                    ops.append(["mok", m, rng.choice(STALE)])
                elif r < 0.85:
                    ops.append(["mpset", m, rng.choice(
                        ["thermo", "water", "index"]),
                        str(rng.randint(1, 8)), rng.choice("01"),
                        rng.choice(STALE)])
                elif r < 0.9:
                    ops.append(["mlock", m, rng.choice(STALE)])
                else:
                    ops.append(["mstate", m])
                prob *= 0.85

        for _ in range(rng.randint(1, 4)):
            m = rng.choice("12")
            noise(m, 0.3)
            life(m)
            if rng.random() < 0.4:
                ops.append(["mreset", m])
                noise(m, 0.5)
        ops = self.legalise(ops)
        if not faults and rng.random() < 0.3:
            ops += self.cycles(rng, names)
        return ops

    def cycles(self, rng, names):
        """Three identical life cycles which must not accumulate memory"""
        ops = [["mreset", "1"], ["mreset", "2"]]
        one = [["minit", "1", "4"]]
        uniq = names[:rng.randint(1, 6)]
        for k, nm in enumerate(uniq):
            inst = self.rand_inst(rng, str(k + 1), [nm], 0.0)
            inst[11] = "-"
            one += [["free", str(k + 1)], inst, ["madd", "1", str(k + 1), "0"]]
        one += [["mlock", "1", "0"], ["mlockdata", "1", "2", "3", "0"],
                ["mindex", "1", uniq[0], "0"], ["mdump", "1"],
                ["mreset", "1"]]
        for num in range(4):
            ops += one
            ops.append(["live"] + (["cyc"] if num >= 2 else []))
        # the slots of the earlier history
        return [["mreset", "1"], ["mreset", "2"]] + [
            ["mdrop", "1"] + [str(x) for x in range(1, 21)],
            ["mdrop", "1"] + [str(x) for x in range(21, 41)],
            ["mdrop", "1"] + [str(x) for x in range(41, 61)]] + \
            self.legalise(ops[2:])

    def gen_data(self, rng):
        """Field data: defaults, gather, update, pointers"""
        names = self.names(rng)
        ops = []
        for _ in range(rng.randint(1, 3)):
            m = rng.choice("12")
            ops.append(["minit", m, str(rng.choice([1, 3, 8]))])
            slots = rng.sample(range(1, 60), rng.randint(0, 10))
            for s in slots:
                inst = self.rand_inst(rng, str(s), names, 0.0)
                if inst[11] == "bogus":
                    inst[11] = "-"
                ops += [inst, ["madd", m, str(s), rng.choice(STALE)]]
            if rng.random() < 0.1:
                ops += [["mdump", m], ["mlockdata", m, "1", "1", "0"]]
            nc, nl = rng.randint(0, 4), rng.randint(1, 4)
            ops += [["mlock", m, "0"],
                    ["mlockdata", m, str(nc), str(nl), rng.choice(STALE)],
                    ["mdump", m]]
            for _ in range(rng.randint(1, 14)):
                filt = [rng.choice("---01") for _ in range(3)]
                r = rng.random()
                lev = nl if rng.random() < 0.85 else rng.randint(1, 5)
                if r < 0.35:
                    ops.append(["mcopyin", m] + filt +
                               [str(nc), str(lev), str(rng.randint(0, 12)),
                                rng.choice(STALE), "0"])
                elif r < 0.7:
                    ops.append(["mcopyout", m] + filt +
                               [str(nc), str(lev), str(rng.randint(0, 12)),
                                rng.choice(STALE),
                                str(rng.randint(1, 9) * 1000000) + "."])
                elif r < 0.8:
                    ops.append(["mwrite", m,
                                str(rng.randint(1, 9) * 1000000) + "."])
                elif r < 0.9:
                    ops.append(["mpset", m, rng.choice(["thermo", "water",
                                                        "min"]),
                                str(rng.randint(1, 8)), rng.choice("01"), "0"])
                else:
                    ops.append(["mlockdata", m, "2", "2", "0"])
                if rng.random() < 0.5:
                    ops.append(["mdump", m])
                if rng.random() < 0.2:
                    ops.append(["mnum", m] + filt + ["0"])
            ops.append(["mdump", m])
            if rng.random() < 0.5:
                ops += [["mreset", m], ["mdump", m], ["mstate", m]]
        ops = self.legalise(ops)
        if rng.random() < 0.2:
            ops += self.cycles(rng, names)
        return ops

    def gen_alloc(self, rng):
        """Histories with failing allocations"""
        ops = self.gen_store(rng, faults=True) if rng.random() < 0.5 else \
            [op for op in self.gen_data(rng) if op[0] != "live"]
        cand = [i for i, op in enumerate(ops)
                if op[0] in ("mlock", "mlockdata")]
        picks = {}
        for _ in range(rng.randint(1, 3)):
            if cand:
                picks[rng.choice(cand)] = rng.choice([1, 1, 2, 2, 3, 3, 4, 6])
        out = []
        for i, op in enumerate(ops):
            if i in picks:
                out.append(["failat", str(picks[i])])
                out.append(op)
                out.append(["disarm"])
                if op[0] in ("mlock", "mlockdata"):
                    out.append(["mstate", op[1]])
                    out.append(list(op))        # retry without the fault
                    out.append(["mprops", op[1]])
                    out.append(["mdump", op[1]])
            else:
                out.append(op)
        return out

    # ---- execution
    def execute(self, scenario):
        ops = scenario["ops"]
        res = Result()
        rc, groups, err = run_driver(self.work, [" ".join(o) for o in ops])
        model = LibModel()
        res.stats["operations"] = len(ops)
        res.stats["sim_steps"] = len(ops)
        armed = False
        ended = None
        consumed = False
        seen = []
        pos = 0
        while pos < len(ops):
            op = ops[pos]
            got = groups.get(pos + 1)
            if got is None:
                ended = pos
                break
            seen.append(got if op[0] != "live" else ["live"])
            res.stats["op:" + op[0]] += 1
            if op[0] == "failat":
                armed = True
                pos += 1
                continue
            if op[0] == "disarm":
                armed = False
                pos += 1
                continue
            fired = False
            if armed:
                nxt = groups.get(pos + 2, ["0"])
                fired = nxt[0] not in ("0", "-1")
                if fired:
                    consumed = True
                    res.stats["fault:allocation failure in " + op[0]] += 1
            if fired:
                # the call must report the failure and leave a usable object
                if op[0] in ("mlock", "mlockdata"):
                    if got[0] != "ERR":
                        res.fail("alloc-failure-not-reported",
                                 f"op {pos + 1} {op}: allocation failed but "
                                 f"the call reported {got}")
                        break
                    pos += 1
                    continue
                # for the others a silent success is impossible to predict:
                # accept termination only (handled below) or a reported error
                res.fail("alloc-failure-not-reported",
                         f"op {pos + 1} {op}: allocation failed, the call "
                         f"continued with {got}")
                break
            want = model.predict(op)
            bad = model.check(want, got)
            if bad:
                res.fail(self.classify(op),
                         f"op {pos + 1} {' '.join(op)}: {bad}")
                break
            if len(op) > 1 and op[-1] in ("-1", "-2", "5", "17"):
                res.stats["fault:stale caller error code"] += 1
            pos += 1
        if ended is not None and not res.violations:
            last = ops[ended]
            fatal = "Error allocating" in err or "Allocation would exceed" in err \
                or "Out of memory" in err or "allocat" in err.lower()
            segv = rc < 0 or "SIGSEGV" in err or "SIGABRT" in err or \
                "SIGBUS" in err or "Backtrace" in err
            if armed and fatal and "SIGSEGV" not in err and rc > 0:
                res.stats["fault:allocation failure, clean stop in "
                          + last[0]] += 1
                consumed = True
            else:
                sig = "hang" if rc == -24 else "crash"
                res.fail(sig + ":" + self.classify(last),
                         f"the process ended (code {rc}) in op {ended + 1} "
                         f"{' '.join(last)}:\n{err[-1500:]}")
        res.trace = digest([ops, seen])
        res.states.add(digest(seen))
        if self.prop == "L05":
            res.nontrivial = consumed
        else:
            key = {"L01": "haddc", "L02": "get", "L03": "mlock",
                   "L04": "mlockdata"}[self.prop]
            res.nontrivial = res.stats["op:" + key] > 0
        return res

    def classify(self, op):
        """Signature of a violation seen at <op>"""
        return "mismatch:" + op[0]

    def shrink(self, scenario):
        ops = scenario["ops"]
        for cand in shrink_list(ops, 1):
            if self.prop == "L05":
                # keep failat/op/disarm triples together
                ok = True
                for i, op in enumerate(cand):
                    if op[0] == "failat" and (i + 2 >= len(cand) or
                                              cand[i + 2][0] != "disarm"):
                        ok = False
                    if op[0] == "disarm" and (i < 2 or
                                              cand[i - 2][0] != "failat"):
                        ok = False
                if not ok or self.legal(cand) != cand:
                    continue
                yield {"ops": cand}
            elif self.legal(cand) == cand:
                yield {"ops": cand}

    def legal(self, ops):
        """The legal part of a shrunk history (must be all of it)"""
        try:
            core = [o for o in ops if o[0] not in ("failat", "disarm", "live")]
            good = self.legalise(core)
        except Exception:                   # pylint: disable=broad-except
            return None
        return ops if good == core else None

    def describe(self, scenario):
        return "; ".join(" ".join(o) for o in scenario["ops"])[:1200]
