#!/bin/bash
# exits 0 when the property holds, nonzero when it is broken. Run in the repository's root.
# Compiles demo_fw.cpp for the ATmega328P against include/ and runs it on a simulated chip (chip.hpp).
d="$(cd "$(dirname "$0")" && pwd)"; t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
avr-g++ -mmcu=atmega328p -DF_CPU_HZ=16000000L -std=c++17 -O2 -w -fno-exceptions -ffunction-sections -fdata-sections -fno-threadsafe-statics -Wl,--gc-sections -Iinclude -I"$d" "$d/demo_fw.cpp" -o "$t/fw.elf" || exit 4
g++ -std=c++17 -O2 -w -Iinclude "$d/demo.cpp" -o "$t/demo" || exit 4
timeout 200 "$t/demo" "$t/fw.elf"
