#!/bin/bash
# t.sh crate irsym-args
c=$1; shift
/verif/irbuild.sh $c > /tmp/build.log 2>&1 || { grep -E "^error" -A9 /tmp/build.log | head -60; exit 1; }
/verif/engine/target/release/irsym /verif/.build/$c/x86_64-unknown-linux-gnu/debug/deps/*.ll "$@" > /tmp/o.json && python3 /tmp/show.py /tmp/o.json
