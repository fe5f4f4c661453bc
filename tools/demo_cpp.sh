#!/bin/bash
# demo: compiles demo.cpp (beside this file) against the tree in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -w -I src "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 2
cd "$tmp" && timeout 60 ./demo
