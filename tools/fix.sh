#!/bin/bash
# fix.sh MESSAGE: tests /repo's working tree and commits it as one repair.
bash /verif/tools/reptest.sh | tee /tmp/reptest.out
grep -q "missing \[\]" /tmp/reptest.out || { echo "NOT COMMITTED"; exit 1; }
git -C /repo status --short; git -C /repo add -A; git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
