#!/bin/bash
# tools/bug.sh ID [notest]: judge the planted bug seeded/ID in a scratch copy of
# /repo which is mounted over /repo in a private mount namespace: the patch
# applies, it builds, the stable tests pass, the demo tells the trees apart,
# and which check catches it.
ID=$1; V=$(dirname "$(dirname "$(realpath "$0")")"); B=$V/seeded/$ID
W=$(mktemp -d /tmp/bug_XXXXXX); trap 'rm -rf "$W"' EXIT
git -C /repo worktree list >/dev/null
cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- . ; mkdir "$W/demo"; cp "$B"/* "$W/demo/"; rm "$W/demo/patch.diff" "$W/demo/meta.json"
export V B W ID NOTEST=$2
unshare -m bash -c '
mount --bind "$W/repo" /repo; cd /repo
export PYTHONDONTWRITEBYTECODE=1
timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1; echo "$ID demo clean: $?"
git apply "$B/patch.diff" || { echo "$ID does not apply"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1; echo "$ID demo patched: $? $(tail -1 "$W/d1" | cut -c1-150)"
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >"$W/b" 2>&1; echo "$ID build: $?"
bash /opt/vp/test.sh "$W/t.json" >"$W/t" 2>&1
python3 -c "
import json
s=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]); p=set(json.load(open(\"$W/t.json\"))[\"passed\"])
print(\"$ID tests failing:\", sorted(s-p))"
fi
P=$(python3 -c "import json;print(json.load(open(\"$B/meta.json\"))[\"property\"])")
cd "$V"; VP_KEEP= VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash checks/run.sh $P >"$W/c" 2>&1; echo "$ID check $P: $? $(grep -c VIOLATION "$W/c") $(grep -m1 VIOLATION "$W/c" | cut -c1-200)"
'
