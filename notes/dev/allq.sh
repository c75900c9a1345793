cd /verif; for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 T01 T02 T03 T04 T05 T06 T07}; do s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $p --tier quick > /tmp/w/q.$p.log 2>&1; echo "$p rc=$? $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/w/q.$p.log)"; done
