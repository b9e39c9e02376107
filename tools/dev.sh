#!/bin/bash
# developer helper: dev.sh ROOTS [REPO]
set -e
REPO=${2:-/repo}
T=${DEV_TARGET:-/verif/target/repo}
SYS=$(rustc +nightly --print sysroot)
( cd $REPO && RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Cdebug-assertions=on -Coverflow-checks=on --cap-lints=allow" cargo +nightly check --offline --lib --target-dir $T 2>&1 | grep -E "^error" -A5 || true )
META=$(find $T -name "libchronologic-*.rmeta" | xargs ls -t | head -1)
L=""; for d in $(find $T \( -name "*.rmeta" -o -name "*.so" \) -printf "%h\n" | sort -u); do L="$L -L dependency=$d"; done
cd /verif/spec
CHRONO_ROOTS=$1 LD_LIBRARY_PATH=$SYS/lib /verif/target/tool/release/chronoscan src/lib.rs --sysroot $SYS --edition 2021 --crate-type lib --crate-name spec -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Cdebug-assertions=on -Coverflow-checks=on --cap-lints allow --extern chronologic=$META --extern chrono=$(find $T -name "libchrono-*.rmeta" | xargs ls -t | head -1) $L --emit=metadata -o /tmp/spec.rmeta 2>&1 | sed -e "s/chronologic:://g; s/std::[a-z]*:://g" | cut -c1-${W:-330}
