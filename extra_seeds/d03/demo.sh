#!/bin/bash
# generates the classes of d.yaml with the tree in the current directory, builds demo.cpp against them and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
(cd "$repo/src" && PYTHONDONTWRITEBYTECODE=1 /opt/vrtgen-venv/bin/python -W ignore -m vrtgen.main cpp --cmd-socket udp --dir "$tmp/g" --namespace ns "$here/d.yaml")
for f in "$tmp"/g/*.hpp; do echo "#include \"$(basename "$f")\""; done > "$tmp/main.cpp"
cat "$here/demo.cpp" >> "$tmp/main.cpp"
g++ -std=c++20 -w -O1 -I"$repo/include" -I"$tmp/g" "$tmp/main.cpp" "$tmp"/g/*.cpp -o "$tmp/demo" -lpthread
timeout 100 "$tmp/demo"
