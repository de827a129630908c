#!/bin/bash
# tools/cover.sh DIR [CHECK..]: which statements of /repo the drivers reach under the given (default: all) quick checks.
# Works on a copy of /repo in DIR; writes DIR/profile.txt and prints the blocks nothing reached.
mkdir -p "$1"; D=$(realpath "$1"); shift
cd "$(dirname "$0")/.."; V=$PWD
rm -rf "$D/repo" "$D/raw"; mkdir -p "$D/raw"; cp -a /repo "$D/repo"
mkdir -p "$D/repo/zzverif"; cp -r driver/* "$D/repo/zzverif/"
cp -r evidence "$D/evidence"
export VERIF_REPO="$D/repo"
for c in ${@:-$(seq -f 'C%02g' 1 23)}; do GOCOVERDIR="$D/raw" python3 check.py "$c" >/dev/null 2>&1; echo "$c $?"; done
rm -rf evidence; mv "$D/evidence" evidence
cd "$D/repo" && go tool covdata textfmt -i="$D/raw" -o="$D/profile.txt"
sed 1d "$D/profile.txt" | awk '{n[$1" "$2]+=$3} END {for (k in n) if (!n[k]) print k}' | grep -v -e zzverif -e /examples/ | sort -V
rm -rf "$D/repo" "$D/raw"
