#!/bin/bash
# revtest.sh COMMIT CHECK...: runs the checks with one repair of /repo taken back (working tree only).
c=$1; shift
git -C /repo diff $c $c~1 > /tmp/rev.diff
git -C /repo apply /tmp/rev.diff || exit 1
for k in "$@"; do echo "== without $c: $k"; python3 /verif/check.py $k 2>&1 | tail -3 | cut -c1-400; done
git -C /repo checkout -- .
