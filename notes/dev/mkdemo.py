"""Development tool: turn a handwritten world and history into a demonstration
folder (case/ with all sources, the script and the expected log).
usage: mkdemo.py DIR   with DIR/spec.py defining WORLD(b) and OPS"""
import sys, os, runpy, shutil, subprocess
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
from vsim import capworld, capsim, core
from vsim.capref import PHNUM

class B:
    """Builders"""
    @staticmethod
    def var(std, dims="", units="m", typ="real", kind="kind_phys", top=False, ddt=False, **kw):
        v = dict(std=std, local="h_" + std.rsplit("_", 1)[-1], type=typ, kind=kind if typ == "real" else None,
                 dims=list(dims), family=0, units=units if typ == "real" else ("flag" if typ == "logical" else "count"),
                 top=top, active=None, in_ddt=ddt)
        v.update(kw); return v
    @staticmethod
    def arg(std, intent="in", dims="", units="m", local=None, typ="real", kind="kind_phys", top=False, **kw):
        a = dict(std=std, local=local or "z" + std.rsplit("_", 1)[-1], intent=intent, type=typ,
                 kind=kind if typ == "real" else None, dims=list(dims),
                 units=units if typ == "real" else ("flag" if typ == "logical" else "count"), top=top,
                 optional=False, one=False)
        a.update(kw); return a
    @staticmethod
    def scheme(name, dimargs=True, **phases):
        out = {"name": name, "phases": {}}
        for p in capworld.PHASES:
            if p in phases:
                ph = {"spell": capworld.SPELL[p][0], "base": 3 + len(name) + PHNUM[p], "args": list(phases[p])}
                if dimargs and p != "register":
                    used = {d for a in ph["args"] for d in a["dims"]}
                    front = []
                    for d in "HLIE":
                        if d in used:
                            std = capworld.STDDIM["R" if d == "H" and p == "run" else d]
                            front.append(dict(std=std, local={"H": "im", "L": "levs", "I": "levi", "E": "nth"}[d],
                                intent="in", type="integer", kind=None, dims=[], units="count", top=False,
                                optional=False, one=False, dimarg=d))
                    ph["args"] = front + ph["args"]
                out["phases"][p] = ph
        return out
    @staticmethod
    def suite(name, **groups):
        return {"name": name, "groups": [{"name": g, "split": False, "items": it} for g, it in groups.items()]}
    @staticmethod
    def loop(n, *items, name=""):
        return {"loop": n, "name": name, "items": list(items)}
    @staticmethod
    def world(host, schemes, suites, debug=False, H=4, L=3, ddt=None, **kw):
        w = dict(dims=dict(H=H, L=L, E=2, I=L + 1), host=host, schemes=schemes, suites=suites, debug=debug,
                 ddt=any(v["in_ddt"] for v in host) if ddt is None else ddt, prefix="simhost")
        w.update(kw); return w

def call(phase, suite, part="", cs=1, ce=4):
    return ["call", PHNUM[phase], suite, part, cs, ce]

def main():
    d = os.path.abspath(sys.argv[1])
    sp = runpy.run_path(d + "/spec.py", init_globals={"B": B, "call": call})
    w, ops = sp["WORLD"], sp["OPS"]
    case = d + "/case"
    shutil.rmtree(case, ignore_errors=True); os.makedirs(case)
    sim = capsim.CapSim("C01"); sim.work = core.make_work("demo"); sim.prepare()
    # expected: from the reference and the clean tree, which must agree
    res = sim.execute({"world": w, "histories": [ops]})
    assert not res.violations, res.violations
    where = sim.work + "/w"
    assert sim.build(w, where) is None
    text = "\n".join(capsim.script_line(o) for o in ops) + "\n"
    out = subprocess.run(["./sim"], cwd=where, input=text, stdout=subprocess.PIPE, text=True).stdout
    for n, t in capworld.render(w).items(): open(case + "/" + n, "w").write(t)
    open(case + "/history.txt", "w").write(text)
    open(case + "/expected.txt", "w").write(out)
    for n in ("simcore.F90", "simtask.c", "simalloc.c"): shutil.copy("/verif/fortran/" + n, case)
    cmd = capsim.capgen_cmd(w)[2:]
    open(case + "/args.txt", "w").write("\n".join(cmd) + "\n")
    open(case + "/order.txt", "w").write("\n".join([s["name"] + ".F90" for s in w["schemes"]] + ["host_data.F90"]) + "\n")
    open(d + "/demo.sh", "w").write(DEMO)
    shutil.rmtree(sim.work)
    print(out[:int(sys.argv[2]) if len(sys.argv) > 2 else 0])

DEMO = r'''#!/bin/bash
# Generates caps for the small host beside this file with the repository's
# capgen, compiles and runs them, and compares the log with the expected one
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/case/." "$tmp" && cd "$tmp" || exit 3
mapfile -t args < args.txt
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 "$py" "$repo/scripts/ccpp_capgen.py" "${args[@]}" > capgen.log 2>&1 ||
  { tail -5 capgen.log; echo "capgen failed"; exit 1; }
gcc -c -O1 -fno-builtin simalloc.c simtask.c || exit 3
caps=$(ls out/*_cap.F90 | grep -v simhost_ccpp_cap)
gfortran -o sim -cpp -ffree-line-length-none -O0 -frecursive -fcheck=bounds,do,mem,pointer -w \
  out/ccpp_kinds.F90 simcore.F90 "$repo/src/ccpp_hashable.F90" "$repo/src/ccpp_hash_table.F90" \
  "$repo/src/ccpp_constituent_prop_mod.F90" $(cat order.txt) $caps out/simhost_ccpp_cap.F90 simhost.F90 \
  simalloc.o simtask.o -lpthread -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc > build.log 2>&1 ||
  { tail -20 build.log; echo "the caps do not compile"; exit 1; }
timeout 60 ./sim < history.txt > log.txt 2> err.txt
diff expected.txt log.txt > diff.txt && exit 0
head -10 diff.txt; head -5 err.txt
exit 1
'''
main()
