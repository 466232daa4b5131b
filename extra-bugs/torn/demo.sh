#!/bin/bash
# Four tasks write messages to one pipe.
. "$(dirname "$0")/lib.sh"
cat > s.oh <<'S'
define p: pipe
define n: method (w) {
	define i 1500
	while (gt? $i 0) {
		set i: sub $i 1
		p write $w
	}
}
define a: spawn {
	n aaaa
}
define b: spawn {
	n bbbb
}
define c: spawn {
	n cccc
}
define d: spawn {
	n dddd
}
spawn {
	wait $a $b $c $d
	p writer-close
}
while (define l: p read-list) {
	write-line (l head)
}
S
for i in 1 2 3 4 5 6 7 8; do
	timeout -k 1 34 ./oh s.oh > out 2>&1 < /dev/null
	[ "$(grep -cxE 'aaaa|bbbb|cccc|dddd' out)" = 6000 ] || { echo "messages damaged:"; sort out | uniq -c | head; exit 1; }
done
exit 0
