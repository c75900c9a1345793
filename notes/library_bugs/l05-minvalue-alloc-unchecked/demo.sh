#!/bin/bash
# Compiles the runtime library and the demonstration beside this file
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 3
cat > ccpp_kinds.F90 <<'X'
module ccpp_kinds
  use, intrinsic :: iso_fortran_env, only: kind_phys => real64
  implicit none
  public
end module ccpp_kinds
X
gcc -c "$here/fail.c" -o fail.o || exit 3
gfortran -o demo -cpp -g -Wl,--wrap=malloc fail.o ccpp_kinds.F90 "$repo/src/ccpp_hashable.F90" \
  "$repo/src/ccpp_hash_table.F90" "$repo/src/ccpp_constituent_prop_mod.F90" \
  "$here/demo.F90" || exit 3
timeout 60 ./demo
