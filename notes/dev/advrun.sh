R=$1; T=${2:-advection_test}
rm -rf /tmp/w/advx; cp -a /repo/test/$T /tmp/w/advx; cd /tmp/w/advx; mkdir b; S=$R/scripts
PYTHONPATH=$S:$S/parse_tools /opt/venv/bin/python $S/ccpp_capgen.py --host-files test_host_data.meta,test_host_mod.meta,test_host.meta --scheme-files cld_suite_files.txt --suites cld_suite.xml --debug --host-name test_host --output-root out --kind-type kind_phys=REAL64 >/dev/null 2>err; tail -3 err; cd b; for f in ../out/ccpp_kinds.F90 $R/src/ccpp_hashable.F90 $R/src/ccpp_hash_table.F90 $R/src/ccpp_constituent_prop_mod.F90 ../test_host_data.F90 ../cld_ice.F90 ../cld_liq.F90 ../dlc_liq.F90 ../apply_constituent_tendencies.F90 ../test_host_mod.F90 ../out/ccpp_cld_suite_cap.F90 ../out/test_host_ccpp_cap.F90 ../test_host.F90; do gfortran -g -fcheck=all -w -c $f || break; done; gfortran -o t *.o && ./t 2>&1| tail
