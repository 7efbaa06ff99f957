#!/bin/bash
# Nothing has to be prepared: every check builds its own harness from /repo's working tree.
# This only verifies that the tools the checks rely on are present.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replays
command -v clang++ g++ python3 >/dev/null
echo 'int main(){}' > build/setup.cpp
clang++ -std=c++20 -fsanitize=address,undefined build/setup.cpp -o build/setup.bin
clang++ -std=c++20 -fsanitize=thread build/setup.cpp -o build/setup.bin
rm -f build/setup.cpp build/setup.bin
