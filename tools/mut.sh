#!/bin/bash
# mut.sh PATCH ID [tier]: run a check against a scratch copy of /repo with PATCH
# applied (-R PATCH reverts). Development aid.
set -e
rev=""; [ "$1" = "-R" ] && { rev=-R; shift; }
patch=$(realpath "$1"); id=$2; tier=${3:-quick}
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
git -C "$d/repo" apply $rev "$patch"
mkdir "$d/out"
VERIF_REPO=$d/repo VERIF_OUT=$d/out timeout 900 "$(dirname "$0")/../check" "$id" "$tier" 2>"$d/err" | cut -c1-${MUTW:-400} || true
grep -v jwt.go "$d/err" | head -${MUTE:-3}
