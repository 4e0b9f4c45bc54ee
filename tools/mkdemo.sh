#!/bin/bash
# mkdemo.sh DIR: copy the demonstration template (with the harness's program executor) into DIR.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1/src"
cp "$here/demo/Cargo.toml" "$here/demo/demo.sh" "$1/"
cp "$here/demo/Cargo.lock" "$1/" 2>/dev/null
cp "$here/demo/src/main.rs" "$1/src/"
cp "$here/../harness/src/"{ir,product,text}.rs "$1/src/"
