#!/bin/bash
# tools/trybug.sh ID... : runs the quick check of each seeded bug's property on
# a scratch copy of /repo with the bug applied (the registered checks themselves
# run on /repo).  PROPS="P01 P02" runs these checks instead, SEED another seed.
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  wt=$(mktemp -d /tmp/trybug.XXXXXX)
  cp -a /repo "$wt/repo"
  if git -C "$wt/repo" apply "$PWD/seeded/$id/patch.diff"; then
    for q in $p; do
      s=$(date +%s)
      out=$(KLANGSIM_REPO=$wt/repo KLANGSIM_BUILD=$wt/build VERIF_TIER=quick bin/klangsim check "$q" --tier quick --seed "${SEED:-1}" --evidence 0 2>&1); rc=$?
      echo "$id $q rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 violates) $(echo "$out" | grep -m1 -o VIOLATION)"
    done
  fi
  rm -rf "$wt"
done
