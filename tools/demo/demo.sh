#!/bin/bash
# Runs the Go tests beside this script as a package of the repository in the
# current directory.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o=$(mktemp -d)
trap 'rm -rf "$o"' EXIT
{
    echo '{"Replace": {'
    sep=
    for f in "$d"/*_test.go; do
        printf '%s"%s": "%s"\n' "$sep" "$PWD/zzdemo/$(basename "$f")" "$f"
        sep=,
    done
    echo '}}'
} > "$o/overlay.json"
flags=$(cat "$d/flags" 2>/dev/null)
# the package has no folder to run its tests in
go test -overlay "$o/overlay.json" -vet=off -c -o "$o/demo" $flags ./zzdemo || exit 2
cd "$o" && ./demo -test.timeout 280s
