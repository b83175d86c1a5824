#!/bin/bash
# Builds the program beside this script against the library in /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
B=$PWD/_build
g++ -std=c++20 -O1 -g -DPODIO_JSON_OUTPUT -fsanitize=address -I"$here" -I"$PWD/include" -I"$B/include" -I"$B/models/main" "$here/demo.cc" \
  -L"$B" -lTestDataModel -lpodio -Wl,-rpath,"$B" -pthread -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 200 ./demo
