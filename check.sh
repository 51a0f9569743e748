#!/bin/bash
# check.sh <property> <quick|thorough>  |  check.sh build  |  check.sh replay <file>
# Builds the simulator against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export RUSTUP_TOOLCHAIN=${VSIM_TOOLCHAIN:-stable} RUSTC_BOOTSTRAP=vsim CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
mkdir -p target evidence replays

# Cargo trusts modification times; the tree under test may come with any.
# So what was built from the repository is rebuilt whenever its content differs.
exec 9>target/lock
flock 9
sum=$(cd /repo && find crates Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name 'Cargo.*' \) ! -path '*/target/*' -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
sum="$sum $(cd "$VERIF/sim" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat target/built-from 2>/dev/null)" != "$sum" ]; then
    for b in std nostd; do
        for d in "$VERIF/target/$b/release/.fingerprint"/mapping-algorithms-* "$VERIF/target/$b/release/.fingerprint"/vsim-*; do
            [ -d "$d" ] && rm -rf "$d"
        done
    done
    rm -f "$VERIF/target/built-from"
fi
build() { # name, features
    (cd sim && CARGO_TARGET_DIR="$VERIF/target/$1" nice -n 0 cargo build --offline --locked --release $2 --bin vsim) >"target/$1.log" 2>&1
}
build std "--features libstd" &
p1=$!
build nostd "" &
p2=$!
wait $p1; r1=$?
wait $p2; r2=$?
if [ $r1 -ne 0 ]; then
    echo "the simulator does not build against the std configuration of /repo:" >&2
    tail -40 target/std.log >&2
    exit 2
fi
other=$VERIF/target/nostd/release/vsim
if [ $r2 -ne 0 ]; then
    echo "note: the no_std configuration of /repo does not build; only the std one is simulated" >&2
    tail -20 target/nostd.log >&2
    other=-
else
    echo "$sum" >target/built-from
fi
flock -u 9
exec 9>&-

case "$1" in
build) exit 0 ;;
replay)
    b=std
    grep -q '"build":"nostd"' "$2" && b=nostd
    exec "$VERIF/target/$b/release/vsim" replay "$2"
    ;;
*)
    exec "$VERIF/target/std/release/vsim" check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$other"
    ;;
esac
