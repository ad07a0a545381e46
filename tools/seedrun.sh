#!/bin/bash
# seedrun.sh ID...: demo on the clean tree, then with the patch: tests, demo, the property's quick check
cd /verif
for id in "$@"; do
  S=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  T=$(mktemp -d /tmp/sr.XXXXXX); cp -a "$S" $T/s; rm -f $T/s/patch.diff $T/s/meta.json
  [ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 1; }
  (cd /repo && bash $T/s/demo.sh >$T/clean.log 2>&1); c=$?
  git -C /repo apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /repo && bash $T/s/demo.sh >$T/bad.log 2>&1); b=$?
  miss=$(bash /tmp/t.sh | tail -1)
  r=-; out=
  if [ -z "$NOCHECK" ]; then
  out=$(VERIF_SEED=1 KV_NO_EVIDENCE=1 /opt/venv/bin/python check.py $prop quick 2>&1); r=$?
  fi
  git -C /repo checkout -- .
  echo "$id $prop demo clean=$c patched=$b | $miss | check exit $r $(echo "$out" | grep -c ^VIOLATION)"
  [ $c = 0 ] || tail -5 $T/clean.log
  [ $b != 0 ] || echo "   DEMO PASSES WITH PATCH"
  [ "$r" = 1 ] && echo "$out" | head -1 | cut -c1-200
  [ "$r" = 1 ] || echo "$out" | tail -3
  rm -rf "$T"
done
