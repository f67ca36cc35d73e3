#!/bin/bash
# mutate.sh <patch> <ID...>: applies a patch to a scratch copy of /repo and runs the quick checks against that copy
# (development aid only: registered checks always use /repo)
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/mut_XXXX); cp -a /repo "$D/repo"; (cd "$D/repo" && git apply "$P") || { rm -rf "$D"; exit 3; }
for i in "$@"; do VERIF_REPO="$D/repo" timeout 890 /opt/venv/bin/python /verif/check.py "$i" quick > "$D/log" 2>&1; rc=$?; echo "$i rc=$rc $(grep -c VIOLATION "$D/log") violations; clauses: $(grep -o 'clause .* violated' "$D/log" | sort | uniq -c | tr '\n' ';')"; [ $rc = 2 ] && tail -5 "$D/log"; done
rm -rf "$D"
