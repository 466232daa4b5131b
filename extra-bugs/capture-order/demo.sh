#!/bin/bash
# More output than fits in a pipe.
. "$(dirname "$0")/lib.sh"
for i in $(seq 20000); do echo "$i"; done > in
cat > s.oh <<'S'
define l: list `(cat in)
echo (l length) (l get 19999)
S
timeout 20 ./oh s.oh > out 2>&1
grep -q '^20000 20000$' out && exit 0
echo "the output was not captured"
exit 1
