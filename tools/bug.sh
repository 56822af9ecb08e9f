#!/bin/bash
# tools/bug.sh ID...: confirms the planted bugs in a scratch copy of /repo (made in /tmp, removed afterwards).
. /opt/vp/env.sh
for id in "$@"; do
  dir=/verif/seeded/$id
  scratch=$(mktemp -d /tmp/scratch.XXXXXX)
  cp -a /repo/. "$scratch/"
  cd "$scratch" || exit 1
  bash "$dir/demo.sh" > /tmp/bug.$id.clean 2>&1; clean=$?
  git apply "$dir/patch.diff" || { echo "$id: does not apply"; continue; }
  cargo check -q -p manul --offline > /tmp/bug.$id.build 2>&1 || { echo "$id: does not build"; tail -30 /tmp/bug.$id.build; continue; }
  cargo test --workspace --all-features --no-fail-fast --offline > /tmp/bug.$id.test 2>&1; tests=$?
  passed=$(grep -c '^test .* ok$' /tmp/bug.$id.test)
  bash "$dir/demo.sh" > /tmp/bug.$id.bad 2>&1; bad=$?
  echo "$id: demo clean $clean, patched $bad; tests exit $tests, passed $passed; $(grep -h BROKEN /tmp/bug.$id.bad | head -1; grep -h 'panicked' -A1 /tmp/bug.$id.bad | tail -1 | cut -c1-120)"
  cd /
  rm -rf "$scratch"
done
