#!/bin/bash
# development helper: extract and verify
cd /verif
B=/tmp/vxout; mkdir -p $B
extract/target/debug/vx --src ${SRC:-/repo/src/sqrid} --spec ${SPEC:-spec} --out $B/out.rs --report $B/rep.json $VXARGS || exit 1
cd $B && verus out.rs --crate-type lib --num-threads 8 --no-trait-conflicts "$@"
