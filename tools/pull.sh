#!/bin/bash
# pull the fixes of the scratch clone /tmp/fix into /repo and run the stable tests
set -e
git -C /repo pull -q --ff-only /tmp/fix main
bash /opt/vp/build.sh >/tmp/b.log 2>&1
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1 || true
cat /tmp/o.json; echo
git -C /repo status --short
git -C /repo log --format='%h %s' | head -${1:-6}
