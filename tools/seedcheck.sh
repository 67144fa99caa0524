#!/bin/bash
# tools/seedcheck.sh ID [PROPERTY...]: run checks (default: the one in meta.json) against a scratch copy with the bug.
id=$1; shift; s=/verif/seeded/$id; w=$(mktemp -d /tmp/seedc-XXXX)
cp -a "${MC_SRC:-/repo}" "$w/repo"; cd "$w/repo" && git checkout -q -- . && git apply "$s/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; rm -rf "$w"; exit 1; }
props=${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
cp -a /verif "$w/verif"; cd "$w/verif"
for p in $props; do
  MC_REPO=$w/repo /opt/venv/bin/python -B -m mc run $p > "$w/log" 2>&1; rc=$?
  echo "CHECK $id $p rc=$rc $(grep -a -c '^VIOLATION' "$w/log") violations; $(tail -1 "$w/log")"
  grep -a -A2 "^VIOLATION" "$w/log" | head -6 | cut -c1-300
done
rm -rf "$w"
