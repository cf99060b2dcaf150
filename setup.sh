#!/bin/bash
# Checks that the tools the framework needs are there; every check rebuilds itself from /repo.
cd "$(dirname "$0")" || exit 1
mkdir -p build out evidence replays
for t in g++ avr-g++ avr-objdump python3; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
# the simulated core against the host
source ./build_rules.sh; t=$(mktemp -d) || exit 1
avr-g++ $AVRFLAGS -O2 -Ifw fw/selftest.cpp -o "$t/s.elf" && g++ -std=c++17 -O2 -w -fwrapv avr/selftest.cpp -o "$t/s" && "$t/s" "$t/s.elf" || { rm -rf "$t"; exit 1; }
rm -rf "$t"
echo setup ok
