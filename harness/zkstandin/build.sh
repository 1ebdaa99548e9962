#!/bin/bash
# Rebuilds the two committed .wasm files from witness.c.
cd "$(dirname "$0")"
F="--target=wasm32 -O1 -nostdlib -fno-builtin -fno-delete-null-pointer-checks -Wl,--no-entry -Wl,--initial-memory=262144 -Wl,-z,stack-size=16384 -Wno-int-to-pointer-cast -Wno-pointer-to-int-cast"
clang $F -o idenstate.wasm witness.c && clang $F -DCRED -o credential.wasm witness.c && ls -la *.wasm
