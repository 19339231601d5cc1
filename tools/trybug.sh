#!/bin/bash
# usage: trybug.sh ID [CHECK] [args...]: run a quick check (by default the one of the bug's property) against a scratch
# copy of /repo with the planted bug applied, from a scratch copy of /verif/sim; prints CAUGHT or missed.
id=$1; prop=${2:-$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; shift; shift
t=$(mktemp -d /tmp/try.XXXXXX)
mkdir -p $t/v; cp -a /repo $t/r; cp -a /verif/sim /verif/known_findings.json /verif/properties.jsonl $t/v/; cp -a /verif/.cache $t/v/ 2>/dev/null; mkdir -p $t/v/evidence $t/v/replays
sed -i "s#^REPO = .*#REPO = \"$t/r\"#" $t/v/sim/stage.py
git -C $t/r apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf "$t"; exit 2; }
cd $t/v; s=$(date +%s)
out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /opt/venv/bin/python -m sim.check $prop "$@" 2>&1); rc=$?
e=$(($(date +%s)-s))
if [ $rc = 1 ] && grep -q "VIOLATION property=$prop" <<<"$out"; then echo "$id $prop CAUGHT rc=$rc ${e}s: $(grep -v '^VIOLATION' <<<"$out" | tail -n 4 | tr '\n' '|' | cut -c1-250)"; else echo "$id $prop MISSED rc=$rc ${e}s: $(tail -n 2 <<<"$out" | tr '\n' '|'| cut -c1-300)"; fi
[ -n "$KEEP" ] && echo kept $t || rm -rf "$t"
