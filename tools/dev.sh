#!/bin/bash
# dev.sh Cxx [args]: a check run from a copy of /verif on a clone of /repo's HEAD under /tmp/dev (while /repo or /verif are in use)
mkdir -p /tmp/dev; [ -d /tmp/dev/repo ] || git clone -q /repo /tmp/dev/repo
git -C /tmp/dev/repo pull -q
python3 /verif/tools/mklib.py
rsync -a --checksum --exclude seeded --exclude .git --exclude evidence --exclude /build --exclude __pycache__ --exclude '*.toml' --exclude Cargo.lock --exclude check.py /verif/ /tmp/dev/verif/
for f in $(cd /verif && find harness models standins symir -name '*.toml' -not -path '*/target/*') check.py; do
  sed "s#\"/repo#\"/tmp/dev/repo#g;s#'/repo'#'/tmp/dev/repo'#" /verif/$f > /tmp/dev/x; cmp -s /tmp/dev/x /tmp/dev/verif/$f || cp /tmp/dev/x /tmp/dev/verif/$f; done
for f in harness/Cargo.lock symir/Cargo.lock; do [ -f /verif/$f ] && cp /verif/$f /tmp/dev/verif/$f; done
cd /tmp/dev/verif; timeout ${LIMIT:-300} python3 check.py "$@" 2>&1 | grep -v "^warning\|^ *|\|^ *-->\|^ *=\|^[0-9 ]* |" | tail -40
