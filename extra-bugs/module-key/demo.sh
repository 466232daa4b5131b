#!/bin/bash
# A module imported by different paths.
. "$(dirname "$0")/lib.sh"
printf 'module m\necho evaluated\nexport name: method () {\n\treturn m\n}\n' > m.oh
cat > s.oh <<'S'
define a: import ./m.oh
define b: import m.oh
define c: import $PWD/m.oh
a name
b name
c name
S
sed -i "s|\$PWD|$tmp|" s.oh
timeout 10 ./oh s.oh > out 2>&1
[ "$(grep -c evaluated out)" = 1 ] && exit 0
echo "the module was evaluated again"; cat out
exit 1
