#!/bin/bash
# Builds the canisters of the current directory (/repo) to WebAssembly in a scratch directory
# and runs the scripted scenario demo.mjs against them.  Exit 0: behaves; 1: broken; 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
python3 "$here/mkwasm.py" "$repo" "$tmp" > "$tmp/log" 2>&1 || { tail -40 "$tmp/log"; exit 2; }
cp "$here"/*.mjs "$tmp/" || exit 2
node --no-warnings "$tmp/demo.mjs" "$tmp/wasm"
