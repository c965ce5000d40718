cd /verif; python3 tools/mklib.py; timeout 200 python3 check.py "$@" 2>&1 | grep -v "^warning\|^ *|\|^ *-->\|^ *=\|^[0-9 ]* |" | tail -40
