"""Reference interpreter of the capgen simulation: what every call of the host
must do, computed from the world alone."""
import itertools
import random

from . import constworld
from .capworld import (members, OFFSET,
                       PHASES, PHNUM, STDDIM, UNITS, active_value,
                       convert, fill_value, names_in,
                       r32, scheme, weight)

UNDEF = None
STATES = {"register": ("uninitialized", "uninitialized"),
          "initialize": ("uninitialized", "initialized"),
          "timestep_initial": ("initialized", "in_time_step"),
          "run": ("in_time_step", "in_time_step"),
          "timestep_final": ("in_time_step", "initialized"),
          "finalize": ("initialized", "uninitialized")}


def f(a):
    """The stubs' bounding function"""
    return 50.0 * a / (50.0 + abs(a))


class Arr:
    """A column-major array; None marks an undefined element"""

    __slots__ = ("shape", "data")

    def __init__(self, shape, data=None):
        self.shape = tuple(shape)
        n = 1
        for s in self.shape:
            n *= s
        self.data = [UNDEF] * n if data is None else list(data)

    def copy(self):
        """A copy"""
        return Arr(self.shape, self.data)

    def indices(self):
        """1-based index tuples in storage order"""
        for idx in itertools.product(*[range(1, s + 1)
                                       for s in reversed(self.shape)]):
            yield tuple(reversed(idx))

    def off(self, idx):
        """Storage offset of a 1-based index"""
        o, m = 0, 1
        for i, s in zip(idx, self.shape):
            o += (i - 1) * m
            m *= s
        return o

    def __getitem__(self, idx):
        return self.data[self.off(idx)]

    def __setitem__(self, idx, val):
        self.data[self.off(idx)] = val



class Ref:
    """The model of host, suites and schemes"""

    def __init__(self, world):
        self.w = world
        self.dims = dict(world["dims"])
        self.host = {}
        self.scales = {}
        self.single = any(v["kind"] == "kind_sp" for v in self.everything())
        self.sizes = {STDDIM[d]: n for d, n in self.dims.items()}
        self.meta = {}
        self.num = {}
        for num, v in enumerate(world["host"]):
            self.meta[v["std"]] = v
            self.num[v["std"]] = num
            self.host[v["std"]] = Arr([self.dims[d] for d in v["dims"]]) \
                if v["active"] is None or not v["dims"] else None
        for v in world["host"]:
            if v.get("isflag") or v.get("isloop"):
                self.host[v["std"]].data = [UNDEF]
            if "isindex" in v:
                self.host[v["std"]].data = [v["isindex"]]
        self.state = {s["name"]: "uninitialized" for s in world["suites"]}
        self.mem = {s["name"]: {} for s in world["suites"]}
        self.faults = []
        self.odd = set()
        self.task = 0
        self.sid = {s["name"]: i + 1 for i, s in enumerate(world["schemes"])}
        self.suite = {s["name"]: s for s in world["suites"]}
        self.producer = {s["name"]: self._producers(s)
                         for s in world["suites"]}
        self.local = {s["name"]: self._locals(s) for s in world["suites"]}
        self.const = constworld.Model(self) if world.get("consts") else None
        self.sync(True)

    # ---- static facts
    def _producers(self, suite):
        """std -> (arg of the first write, phase) for what the suite owns"""
        from .capworld import order_of
        out = {}
        for sname, phase, _ in order_of(self.w, suite):
            for a in scheme(self.w, sname)["phases"][phase]["args"]:
                if a["std"] in self.meta or a["std"] in out or \
                        a.get("dimarg") or "const" in a or "whole" in a:
                    continue
                if a["intent"] == "out":
                    out[a["std"]] = (a, phase)
        return out

    def _locals(self, suite):
        """part -> the suite's variables which only this part uses"""
        use = {}
        for g in suite["groups"]:
            for name in names_in({"groups": [g]}):
                for phase, ph in scheme(self.w, name)["phases"].items():
                    for a in ph["args"]:
                        if a["std"] in self.producer[suite["name"]]:
                            use.setdefault(a["std"], set()).add(
                                g["name"] if phase == "run" else phase)
        out = {}
        for std, where in use.items():
            if len(where) == 1:
                out.setdefault(min(where), set()).add(std)
        return out

    def full_order(self, suite, phase):
        """Schemes which a full phase of the suite calls"""
        used = set(names_in(self.suite[suite]))
        return [s["name"] for s in self.w["schemes"] if s["name"] in used
                and phase in s["phases"]]

    def run_order(self, suite, part):
        """The (scheme) calls of one part, subcycles unrolled"""
        for g in self.suite[suite]["groups"]:
            if g["name"] == part:
                return self._unroll(g["items"])
        return None

    def _unroll(self, items):
        out = []
        for it in items:
            if isinstance(it, str):
                if "run" in scheme(self.w, it)["phases"]:
                    out.append(it)
            else:
                num = it["loop"]
                if isinstance(num, str):
                    num = self.host[num].data[0] or 0
                out += self._unroll(it["items"]) * num
        return out

    def scale(self, v):
        """What the tolerance for a real variable or argument is relative to
        at least.  Conversions between units with different zeros and single
        precision lose an absolute amount."""
        if v["type"] != "real":
            return 0.0
        if v["units"] in OFFSET:
            return 300.0
        if not self.single:
            return 1e-3
        key = v["std"], v["units"]
        if key not in self.scales:
            seen = [x["units"] for x in self.everything() if x["std"] == key[0]]
            self.scales[key] = 10.0 * max(
                [convert(1.0, u, v["units"]) for u in seen] or [1.0])
        return self.scales[key]

    def everything(self):
        """All variables and arguments"""
        return self.w["host"] + [
            a for s in self.w["schemes"] for ph in s["phases"].values()
            for a in ph["args"]]

    # ---- the host's own actions
    def active(self, v):
        """Does the host have this variable now?"""
        return v["active"] is None or active_value(
            v["active"], lambda x: self.sizes[x] if x in self.sizes
            else self.host[x].data[0] or 0)

    def sync(self, first=False):
        """Allocate what its flag calls for, free what it does not"""
        for v in self.w["host"]:
            if v["dims"] and v["active"]:
                if self.active(v):
                    if self.host[v["std"]] is None:
                        arr = Arr([self.dims[d] for d in v["dims"]])
                        arr.data = [7.0 if v["type"] == "real" else 7] \
                            * len(arr.data)
                        self.host[v["std"]] = arr
                else:
                    self.host[v["std"]] = None
            elif v["dims"] and first:
                self.host[v["std"]].data = [7.0 if v["type"] == "real" else 7] \
                    * len(self.host[v["std"]].data)

    def fill(self, seed):
        """Set the host's data from a seed"""
        for num, v in enumerate(self.w["host"]):
            arr = self.host[v["std"]]
            if v.get("isflag") or v.get("isloop") or "isindex" in v or \
                    arr is None:
                continue
            if not arr.shape:
                arr.data = [fill_value(v, num, seed, ())]
                continue
            for idx in arr.indices():
                arr[idx] = fill_value(v, num, seed, idx)

    def flag(self, num, val):
        """Set a flag"""
        v = self.w["host"][num]
        if v.get("isflag"):
            self.host[v["std"]].data = [1 if val == 1 else 0]
        elif v.get("isloop"):
            self.host[v["std"]].data = [val]
        self.sync()

    def resize(self, num, dim, delta):
        """Give an array of the host another size (dim 0: the right one)"""
        v = self.w["host"][num]
        if self.host[v["std"]] is None:
            return
        ext = [self.dims[d] for d in v["dims"]]
        self.odd.discard(v["std"])
        if dim:
            ext[dim - 1] += delta
            self.odd.add(v["std"])
        arr = Arr(ext)
        arr.data = [7.0 if v["type"] == "real" else 7] * len(arr.data)
        self.host[v["std"]] = arr

    # ---- calls
    def fail_code(self, sid, phase, point):
        """Consult the fault plan exactly as the stubs do"""
        for flt in self.faults:
            if flt[0] == sid and flt[1] == phase and flt[4] == point and \
                    flt[6] == self.task:
                flt[2] -= 1
                if flt[2] == 0:
                    return flt[3], flt[5]
        return 0, ""

    def legal(self, phase, suite, part):
        """None, or why the call must be refused"""
        if suite not in self.suite:
            return "unknown suite"
        if phase == "run" and self.run_order(suite, part) is None:
            return "unknown part"
        if phase != "run" and self.task > 1:
            return "threaded region"
        if self.state[suite] != STATES[phase][0]:
            return f"state {self.state[suite]}"
        return None

    def call(self, phase, suite, part, cs, ce, observed=None):
        """Run one call.  Return (refusal or None, events, code, msg);
        <observed> is the order in which the real code visited the schemes of a
        full phase (any fixed order is right)."""
        why = self.legal(phase, suite, part)
        if why:
            return why, [], None, None
        if phase == "run":
            order = self.run_order(suite, part)
        else:
            order = list(observed) if observed is not None else \
                self.full_order(suite, phase)
        if phase == "initialize":
            self.mem[suite] = {}
        if phase == "timestep_initial":
            for std, (_, ph) in self.producer[suite].items():
                if ph in ("timestep_initial", "timestep_final"):
                    self.mem[suite].pop(std, None)
        if phase == "run":
            # a variable which only this part uses does not outlive the call
            for std in self.local[suite].get(part, ()):
                self.mem[suite].pop(std, None)
        events = []
        code, msg = 0, ""
        for name in order:
            code, msg, evs = self.one(suite, name, phase, cs, ce)
            events += evs
            if code != 0:
                break
        if code is None:
            return None, events, code, msg
        if phase == "register" and self.const and code == 0:
            self.const.registered(suite, order)
        self.state[suite] = STATES[phase][1]
        if phase == "finalize":
            self.mem[suite] = {}
        return None, events, code, msg

    def storage(self, suite, a):
        """(holder dict, key, attributes, present) of an argument's variable"""
        std = a["std"]
        if a.get("dimarg"):
            n = self.dims[a["dimarg"]]
            if std == "horizontal_loop_extent":
                n = self.now[1] - self.now[0] + 1
            return {std: Arr([], [n])}, std, a, True
        if "const" in a or "whole" in a:
            return self.const.storage(a) + (True,)
        if std in self.meta:
            v = self.meta[std]
            present = not v["dims"] or self.active(v)
            return self.host, std, v, present
        prod = self.producer[suite].get(std)
        if prod is None:
            return None, std, a, False
        pa = prod[0]
        return self.mem[suite], std, pa, not pa["optional"]

    def one(self, suite, name, phase, cs, ce):
        """One call of one scheme"""
        sid, num = self.sid[name], PHNUM[phase]
        ph = scheme(self.w, name)["phases"][phase]
        args = ph["args"] + members(self.w, ph)
        ncol = self.dims["H"]
        lo, hi = (cs, ce) if phase == "run" else (1, ncol)
        self.now = (lo, hi)
        if any(a["std"] in self.odd for a in ph["args"]):
            # the debug checks must notice
            return None, None, []
        evs = [("E", sid, num)]
        vals = []
        for a in args:
            hold, key, attr, present = self.storage(suite, a)
            if not present:
                vals.append(None)
                evs.append(("N", a["local"]))
                continue
            if key not in hold or hold[key] is None:
                hold[key] = Arr([self.dims[d] for d in attr["dims"]])
            # (of the host's derived type there is only the whole)
            cols = (1, ncol) if a.get("member") else (lo, hi)
            local = self.get(hold[key], attr, a, *cols)
            vals.append(local)
            if a["intent"] == "out":
                if a["dims"]:
                    evs.append(("A", a["local"], 0.0, [len(local.shape)],
                                list(local.shape)))
            else:
                evs.append(("A", a["local"],
                            self.scale(a),
                            list(local.shape), list(local.data)))
        code, msg = self.fail_code(sid, num, 0)
        if code == 0:
            self.compute(ph, args, vals)
            code, msg = self.fail_code(sid, num, 1)
        else:
            for a, val in zip(args, vals):
                if val is not None and a["intent"] == "out":
                    val.data = [UNDEF] * len(val.data)
        evs.append(("X", sid, num, code))
        for a, val in zip(args, vals):
            if val is None or a["intent"] == "in":
                continue
            hold, key, attr, _ = self.storage(suite, a)
            cols = (1, ncol) if a.get("member") else (lo, hi)
            self.put(hold[key], attr, a, *cols, val)
        return code, msg, evs

    def get(self, arr, attr, a, lo, hi):
        """What the scheme must see of a variable"""
        if not attr["dims"]:
            return Arr([], [self.tin(arr.data[0], attr, a)])
        shape = list(arr.shape)
        start = [1] * len(shape)
        if attr["dims"][0] == "H":
            shape[0] = hi - lo + 1
            start[0] = lo
        out = Arr(shape)
        for idx in out.indices():
            out[idx] = self.tin(arr[self.there(idx, start, arr, attr, a)],
                                attr, a)
        return out

    @staticmethod
    def there(idx, start, arr, attr, a):
        """Index in the owner's array of an index of the scheme's array"""
        src = [i + s - 1 for i, s in zip(idx, start)]
        if attr["top"] != a["top"] and "L" in attr["dims"]:
            k = attr["dims"].index("L")
            src[k] = arr.shape[k] + 1 - src[k]
        return tuple(src)

    def put(self, arr, attr, a, lo, hi, val):
        """Store what the scheme left"""
        if not attr["dims"]:
            arr.data = [self.tout(val.data[0], attr, a)]
            return
        start = [1] * len(arr.shape)
        if attr["dims"][0] == "H":
            start[0] = lo
        for idx in val.indices():
            arr[self.there(idx, start, arr, attr, a)] = \
                self.tout(val[idx], attr, a)

    @staticmethod
    def tin(x, attr, a):
        """Owner's units and kind to the scheme's"""
        if x is UNDEF or a["type"] != "real":
            return x
        x = convert(x, attr["units"], a["units"])
        return r32(x) if a["kind"] == "kind_sp" else x

    @staticmethod
    def tout(x, attr, a):
        """And back"""
        if x is UNDEF or a["type"] != "real":
            return x
        x = convert(x, a["units"], attr["units"])
        return r32(x) if attr["kind"] == "kind_sp" else x

    def compute(self, ph, args, vals):
        """The stub's arithmetic"""
        ncol = self.dims["H"]
        acc = [0.0] * (ncol + 1)
        sc = 0.0
        isum = 0
        lsum = 0

        def add(x, y):
            return UNDEF if x is UNDEF or y is UNDEF else x + y

        def ff(x):
            return UNDEF if x is UNDEF else f(x)

        def mul(x, c):
            return UNDEF if x is UNDEF else x * c
        for n, (a, v) in enumerate(zip(args, vals)):
            if v is None or a["intent"] == "out":
                continue
            wt = weight(n)
            if a["type"] == "logical":
                x = v.data[0]
                lsum = UNDEF if x is UNDEF or lsum is UNDEF else lsum ^ x
            elif not a["dims"]:
                x = v.data[0]
                if a["type"] != "real":
                    isum = add(isum, UNDEF if x is UNDEF else
                               (n + 1) * (abs(x) % 97 * (1 if x >= 0 else -1)))
                else:
                    sc = add(sc, mul(ff(x), wt))
            elif a["dims"][0] == "H":
                for i in range(1, v.shape[0] + 1):
                    tot = 0.0
                    for idx in Arr(v.shape[1:]).indices():
                        x = v[(i,) + idx]
                        if a["type"] != "real":
                            tot = add(tot, x)
                        elif len(idx) == 0:
                            tot = add(tot, ff(x))
                        elif len(idx) == 1:
                            tot = add(tot, mul(ff(x), idx[0]))
                        else:
                            tot = add(tot, mul(ff(x), idx[0] + 2 * idx[1]))
                    acc[i] = add(acc[i], mul(tot, wt))
            elif a["type"] != "real":
                tot = 0
                for x in v.data:
                    tot = add(tot, x)
                sc = add(sc, mul(tot, wt))
            else:
                tot = 0.0
                for k, x in enumerate(v.data):
                    tot = add(tot, mul(ff(x), k + 1))
                sc = add(sc, mul(tot, wt))
        for n, (a, v) in enumerate(zip(args, vals)):
            if v is None or a["intent"] == "in":
                continue
            base = ph["base"] + n
            inout = a["intent"] == "inout"
            for idx in v.indices():
                old = v[idx]
                if a["type"] == "logical":
                    if inout:
                        new = UNDEF if UNDEF in (old, lsum) else old ^ lsum
                    else:
                        new = UNDEF if lsum is UNDEF else 1 - lsum
                elif a["type"] != "real":
                    new = base + (sum(idx) if idx else
                                  (UNDEF if isum is UNDEF else
                                   abs(isum) % 97 * (1 if isum >= 0 else -1))) \
                        if not (not idx and isum is UNDEF) else UNDEF
                    if inout:
                        new = add(new, UNDEF if old is UNDEF else
                                  abs(old) % 50 * (1 if old >= 0 else -1))
                else:
                    if idx and a["dims"][0] == "H":
                        src = add(acc[idx[0]], sc)
                        pos = sum(0.5 * i for i in idx[1:])
                    else:
                        src = sc
                        pos = sum(0.5 * i for i in idx)
                    new = add(ff(src), base + pos)
                    if inout:
                        new = add(new, mul(ff(old), 0.5))
                    if new is not UNDEF and a["kind"] == "kind_sp":
                        new = r32(new)
                v[idx] = new
            if not v.shape:
                pass
