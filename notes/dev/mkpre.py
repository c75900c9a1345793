"""Development tool: turn a replay of P01-P03 into a demonstration folder
usage: mkpre.py REPLAY DIR [HISTORY]"""
import sys, os, json, shutil, subprocess
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
from vsim import preworld, presim, core, capsim

rep = json.load(open(sys.argv[1])); d = os.path.abspath(sys.argv[2])
sc = rep["scenario"]; w = sc["world"]; w["style"] = None; w["nodir"] = w["verbose"] = False
hi = int(sys.argv[3]) if len(sys.argv) > 3 else 0
ops = sc["histories"][hi]
sim = presim.PreSim("P03" if w["threads"] else "P01"); sim.work = core.make_work("demo"); sim.prepare()
res = sim.execute({"world": w, "histories": [ops]})
assert not res.violations, res.violations
where = sim.work + "/w"
os.makedirs(where)
assert sim.build(w, where) is None
text = "\n".join(capsim.script_line(o) for o in ops) + "\n"
out = subprocess.run(["./sim"], cwd=where, input=text, stdout=subprocess.PIPE, text=True).stdout
case = d + "/case"; shutil.rmtree(case, ignore_errors=True); os.makedirs(case)
for n, t in preworld.render(w, "@REPO@").items():
    os.makedirs(os.path.dirname(case + "/" + n), exist_ok=True); open(case + "/" + n, "w").write(t)
open(case + "/driver.F90", "w").write(preworld.driver(w))
open(case + "/mpi_f08.F90", "w").write(presim.MPI)
open(case + "/history.txt", "w").write(text); open(case + "/expected.txt", "w").write(out)
for n in ("simcore.F90", "simtask.c", "simalloc.c"): shutil.copy("/verif/fortran/" + n, case)
open(case + "/args.txt", "w").write("\n".join(presim.prebuild_cmd(w)[2:]) + "\n")
open(case + "/phys.txt", "w").write("\n".join(preworld.host_files(w)[1:] + preworld.scheme_files(w)) + "\n")
open(case + "/caps.txt", "w").write("\n".join(["build/caps/" + c for c in preworld.caps(w)[::-1]] + [f"build/api/{preworld.api(w)}.F90"]) + "\n")
open(case + "/flags.txt", "w").write("-fopenmp -fsanitize=thread\n" if w["threads"] else "-O0\n")
open(d + "/demo.sh", "w").write(r'''#!/bin/bash
# Generates caps for the small host beside this file with the repository's
# ccpp_prebuild, compiles and runs them, and compares the log with the expected
# one
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/case/." "$tmp" && cd "$tmp" || exit 3
mkdir -p build/caps
sed -i "s|@REPO@|$repo|" config.py
mapfile -t args < args.txt
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 "$py" "$repo/scripts/ccpp_prebuild.py" "${args[@]}" > pre.log 2>&1 ||
  { tail -5 pre.log; echo "ccpp_prebuild failed"; exit 1; }
gcc -c -O1 -fno-builtin simalloc.c simtask.c || exit 3
ff="-cpp -ffree-line-length-none -O0 -frecursive -fcheck=do,mem,pointer -w"
omp=; san=; read -r flags < flags.txt; [ "$flags" = -O0 ] || { omp=-fopenmp; san=-fsanitize=thread; }
gfortran -c $ff mpi_f08.F90 ccpp_kinds.F90 simcore.F90 "$repo/src/ccpp_types.F90" || exit 3
gfortran -c $ff $omp $(cat phys.txt) || exit 3
gfortran -c $ff $omp $san $(cat caps.txt) > build.log 2>&1 &&
gfortran -c $ff $omp driver.F90 >> build.log 2>&1 &&
gfortran -o sim *.o -lpthread -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc >> build.log 2>&1 ||
  { tail -20 build.log; echo "the caps do not compile"; exit 1; }
timeout 60 ./sim < history.txt > log.txt 2> err.txt
diff expected.txt log.txt > diff.txt && exit 0
head -10 diff.txt; head -5 err.txt
exit 1
''')
shutil.rmtree(sim.work)
print(len(out), len(ops), {k: w[k] for k in ("mode", "threads", "debug", "ddt", "insts")})
