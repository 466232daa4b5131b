# Builds the shell from the current directory's source.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
pids=
trap 'for p in $pids; do kill -CONT $p; kill -KILL $p; done 2>/dev/null; rm -rf "$tmp"' EXIT
go build -o "$tmp/oh" . || exit 2
unset OHPATH OH_RC
export HOME="$tmp" OH_RC="$tmp/no-rc"
cd "$tmp" || exit 2
