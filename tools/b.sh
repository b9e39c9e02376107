#!/bin/bash
# build the analyser
cd /verif/tool && cargo +nightly build --release --offline --target-dir /verif/target/tool 2>&1 | grep -E "^error" -A9
true
