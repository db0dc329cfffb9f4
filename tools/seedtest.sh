#!/bin/bash
# usage: seedtest.sh ID [check]   -- confirms a planted change in a scratch copy of /repo
id=$1; s=/verif/seeded/$id; w=/tmp/seedwt
[ -d $w ] || cp -a /repo $w
cd $w && git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
touch src/lib.rs src/main.rs
cargo test --workspace --no-run --locked --offline --lib --bins --tests -q 2>/dev/null || echo "BASE BUILD FAILED"
bash $s/demo.sh >/tmp/seed.base 2>&1; b=$?
git apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
touch src/lib.rs src/main.rs
cargo test --workspace --no-run --locked --offline --lib --bins --tests -q 2>/tmp/seed.build || { echo "$id: DOES NOT BUILD"; tail -5 /tmp/seed.build; }
t=$(cargo test --workspace --no-fail-fast --locked --offline 2>/dev/null | grep '^test result' | awk '{p+=$4; f+=$6} END {print p" passed "f" failed"}')
bash $s/demo.sh >/tmp/seed.pat 2>&1; p=$?
echo "$id: base $b (want 0), patched $p (want nonzero), tests $t; $(tail -3 /tmp/seed.pat | tr '\n' ' ' | cut -c1-200)"
[ $b = 0 ] || tail -5 /tmp/seed.base
git checkout -q -- .
