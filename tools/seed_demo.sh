#!/bin/bash
# run in /repo after the build: 0 on the unchanged tree, nonzero with the change
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -w -O0 -I"$PWD" -I"$D" "$D/demo.cpp" -o "$T/demo" -lboost_thread -lboost_system -lboost_serialization -lboost_chrono -pthread || exit 2
timeout 120 "$T/demo"
