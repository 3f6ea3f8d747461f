#!/bin/bash
# usage: runbugs.sh OUT ID...   runs the check of each seeded bug's property against a scratch copy with the bug
out=$1; shift
here="$(cd "$(dirname "$0")/.." && pwd)"
d=$(mktemp -d /tmp/runbugs.XXXXXX)
cp -a /repo "$d/repo"
for b in "$@"; do
  git -C "$d/repo" checkout -q -- . ; git -C "$d/repo" apply "$here/seeded/$b/patch.diff" || { echo "$b does not apply" >> "$out"; continue; }
  p=$(/opt/venv/bin/python -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$b/meta.json")
  s=$SECONDS
  VERIF_REPO="$d/repo" VERIF_EVIDENCE="$d/evidence" VERIF_REPLAYS="$d/replays" /opt/venv/bin/python "$here/sim/main.py" check "$p" ${RUNBUGS_ARGS} > "$d/log" 2>&1
  rc=$?
  echo "$b $p rc=$rc $((SECONDS - s))s $(grep -c ^VIOLATION "$d/log") $(grep -B1 -m1 ^VIOLATION "$d/log" | head -1 | cut -c1-220)" >> "$out"
done
/bin/rm -rf "$d"
echo "end" >> "$out"
