#!/bin/bash
# trybug.sh ID...: validates /verif/seeded/ID in a scratch worktree: applies, builds, tests, demo both ways.
W=/tmp/tb
[ -d $W ] || git -C /repo worktree add --detach $W HEAD -f >/dev/null 2>&1
git -C $W checkout -q --detach $(git -C /repo rev-parse HEAD); git -C $W checkout -q -- .; git -C $W clean -fdq -e target
cp /repo/Cargo.lock $W/ 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $W checkout -q -- .
  ( cd $W && bash $d/demo.sh >/tmp/tb.$id.base 2>&1 ); b=$?
  git -C $W apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  ( cd $W && cargo test --all-features --lib --offline >/tmp/tb.$id.test 2>&1 ); t=$?
  ( cd $W && bash $d/demo.sh >/tmp/tb.$id.bug 2>&1 ); m=$?
  git -C $W checkout -q -- .
  echo "$id: demo base=$b tests=$t demo bug=$m"
  [ $b = 0 ] || tail -5 /tmp/tb.$id.base; [ $t = 0 ] || grep -E "^error|FAILED|failed" /tmp/tb.$id.test | head; [ $m = 0 ] && tail -5 /tmp/tb.$id.bug
done
