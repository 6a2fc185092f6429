#!/bin/bash
# tryseed.sh DIR: applies DIR/patch.diff in a scratch copy (/tmp/wr) and checks build, stable tests and the demo, both ways
S=$(realpath $1); R=/tmp/wr
git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
W=/tmp/wr.ws; mkdir -p $W; find $W -maxdepth 1 -type l -delete
for d in $R/*/; do d=$(basename $d); [ $d = target ] || ln -s $R/$d $W/$d; done
sed -E '/members/,/\]/ s/"(wallet|cli\/v2)",?//g' $R/Cargo.toml > $W/Cargo.toml; cp $R/Cargo.lock $W/Cargo.lock
export CARGO_TARGET_DIR=$R/target CARGO_NET_OFFLINE=true BITCOIND_SKIP_DOWNLOAD=1 ELECTRSD_SKIP_DOWNLOAD=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
P="--workspace --exclude sp_fuzz --exclude bdk_sp_cli_v1 --all-features"
cd $R
[ -z "$SKIPCLEAN" ] && { env -u CARGO_TARGET_DIR bash $S/demo.sh > /tmp/seed.clean.log 2>&1; echo "clean demo rc=$?"; }
git apply $S/patch.diff || { echo APPLY FAILED; exit 1; }
cargo test --manifest-path $W/Cargo.toml $P --lib --bins --test functional_tests --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.unit.txt 2>&1
cargo test --manifest-path $W/Cargo.toml $P --doc --no-fail-fast --offline >/tmp/seed.doc.txt 2>&1
python3 /opt/vp/results.py /tmp/seed.json "cargo:/tmp/seed.*.txt" >/dev/null; python3 /verif/tools/testcmp.py /tmp/seed.json
env -u CARGO_TARGET_DIR bash $S/demo.sh > /tmp/seed.bug.log 2>&1; echo "bug demo rc=$?"; tail -3 /tmp/seed.bug.log
cargo check -q --manifest-path $W/Cargo.toml -p bdk_sp_cli_v1 --offline 2>&1 | tail -3
git checkout -q -- .
