#!/bin/bash
# seedtest.sh ID...: confirms planted changes in a scratch copy: they apply, build, pass the stable tests,
# and their demonstration passes without and fails with them. Development aid; no check uses it.
work=/tmp/seedwork
[ -d $work/repo ] || { mkdir -p $work && cp -a /repo $work/repo; }
cd $work/repo && git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for id in "$@"; do
  d=/verif/seeded/$id
  out=$(mktemp)
  bash $d/demo.sh >$out 2>&1; a=$?
  [ $a = 0 ] || { echo "$id: demo fails on the clean tree ($a)"; tail -5 $out; }
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash $d/demo.sh >$out 2>&1; b=$?
  t=$(cargo test --workspace --offline --locked 2>&1 | grep -E "^test .*(FAILED)|^error|panicked" | head -5)
  git checkout -q -- .
  [ $a = 0 ] && [ $b != 0 ] && [ $b != 3 ] && [ -z "$t" ] && echo "$id: ok ($b: $(tail -1 $out | cut -c1-150))" || echo "$id: PROBLEM clean=$a patched=$b tests=[$t] $(tail -3 $out)"
done
