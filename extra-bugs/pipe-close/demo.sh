#!/bin/bash
# A consumer that stops reading early.
. "$(dirname "$0")/lib.sh"
for i in $(seq 100000); do echo "$i"; done > in
cat > s.oh <<'S'
define m: method () {
	catch ex {
		return
	}
	cat in | block {
		read-line
	}
}
m
echo done
S
timeout 20 ./oh s.oh > out 2>&1
grep -q '^done$' out && exit 0
echo "the pipeline does not end"
exit 1
