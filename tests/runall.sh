cd /verif
ls checks/c*.py | xargs -n1 basename | cut -c1-3 | tr a-z A-Z | SA_REPO=/tmp/rf SA_EVID=/tmp/rfe timeout 700 xargs -P 7 -I{} sh -c 'timeout 300 python3 check.py {} > /tmp/rfo.{} 2>&1; echo "{} rc=$?"'
