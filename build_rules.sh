# Sourced by check.sh. build_check ID sets BIN. Everything is rebuilt from $REPO/include on every call.
HOSTFLAGS="-std=c++17 -O2 -g -w -fwrapv -ftrivial-auto-var-init=pattern -I$REPO/include"
# The project's own flags for the target (cmake/toolchain-avr-gcc.cmake), without -mrelax: this binutils leaves switch jump tables pointing at the wrong code when it relaxes calls in front of them.
AVRFLAGS="-mmcu=atmega328p -DF_CPU_HZ=16000000L -std=c++17 -w -fno-exceptions -ffunction-sections -fdata-sections -fno-threadsafe-statics -flto -fuse-linker-plugin -Wl,--gc-sections"
# The simulated chip has more memory than the real one (AVR_BIG), so that a check's firmware, which holds far more than any application, always fits.
BIG="-Wl,--defsym=__stack=0x17ff -Wl,--defsym=__TEXT_REGION_LENGTH__=64K"; HOSTFLAGS="$HOSTFLAGS -DAVR_BIG"
# avr_fw OUT SOURCE OPT...: build one firmware in the background
avr_fw() { local o="$1" s="$2"; shift 2; avr-g++ $AVRFLAGS $BIG "$@" -I"$REPO/include" -Ifw "$s" -o "$dir/$o" 2> "$dir/$o.log"; }
build_check() {
  local id="$1" low; low=$(echo "$1" | tr A-Z a-z)
  local dir="${BUILD_DIR:-$VERIF_DIR/build}/$id"; mkdir -p "$dir"; BIN="$dir/check"; rm -f "$BIN"
  export DST_VARIANT=full
  case "$id" in
    E0[1-58]|F0*)
      local extra=""; [[ "$id" = F03 || "$id" = F05 ]] && extra="-fsanitize=address -fno-omit-frame-pointer"
      # If the changed code no longer accepts the exact prime-field number type, decide with real numbers only.
      if ! g++ $HOSTFLAGS $extra -DUSE_GF=1 host/$low.cpp -o "$BIN" 2> "$dir/build.log"; then
        export DST_VARIANT="real numbers only (exact number type did not compile)"
        g++ $HOSTFLAGS $extra -DUSE_GF=0 host/$low.cpp -o "$BIN" 2>> "$dir/build.log" || { grep -m 6 -E "error|undefined" "$dir/build.log" >&2; return 1; }
      fi;;
    M03)
      rm -f "$dir"/*.elf
      avr_fw o2.elf fw/m03.cpp -O2 & local p1=$!; avr_fw os1.elf fw/m03.cpp -Os -DPART=1 & local p2=$!; avr_fw os2.elf fw/m03.cpp -Os -DPART=2 & local p3=$!
      g++ $HOSTFLAGS -Ifw -DFW_PATHS="\"$dir/o2.elf $dir/os1.elf $dir/os2.elf\"" host/$low.cpp -o "$BIN" 2> "$dir/build.log" || { grep -m 6 -E "error|undefined" "$dir/build.log" >&2; return 1; }
      wait $p1 && wait $p2 && wait $p3 || { cat "$dir"/*.elf.log | grep -m 6 -E "error|undefined|region" >&2; return 1; };;
    M07)
      rm -f "$dir"/*.elf; local ex="$REPO/example/avr/avr-adc-dac-isr-atmega.e.cpp"
      avr_fw x2.elf "$ex" -O2 & local p1=$!; avr_fw xs.elf "$ex" -Os & local p2=$!; avr_fw o2.elf fw/m07.cpp -O2 & local p3=$!; avr_fw os.elf fw/m07.cpp -Os & local p4=$!
      g++ $HOSTFLAGS -DFW_PATHS="\"$dir/x2.elf $dir/xs.elf $dir/o2.elf $dir/os.elf\"" host/$low.cpp -o "$BIN" 2> "$dir/build.log" || { grep -m 6 -E "error|undefined" "$dir/build.log" >&2; return 1; }
      wait $p1 && wait $p2 && wait $p3 && wait $p4 || { cat "$dir"/*.elf.log | grep -m 6 -E "error|undefined|region" >&2; return 1; };;
    M13)
      rm -f "$dir"/*.elf; local fws="" ps="" ex="$REPO/example/avr" o p
      for o in O2 Os; do for p in blink-led blink-led-isr fade-led adc-isr; do avr_fw $p$o.elf "$ex/avr-$p.e.cpp" -$o & ps="$ps $!"; done
        for p in double fp32_t; do avr_fw time-$p$o.elf "$REPO/time/avr-kalman-time.cpp" -$o -DKE_NUMERIC_TYPE=$p & ps="$ps $!"; done; done
      for p in blink-led blink-led-isr fade-led adc-isr time-double time-fp32_t; do fws="$fws $dir/${p}O2.elf $dir/${p}Os.elf"; done
      g++ $HOSTFLAGS -DFW_PATHS="\"$fws\"" host/$low.cpp -o "$BIN" 2> "$dir/build.log" || { grep -m 6 -E "error|undefined" "$dir/build.log" >&2; return 1; }
      for p in $ps; do wait $p || { cat "$dir"/*.elf.log | grep -m 6 -E "error|undefined|region" >&2; return 1; }; done;;
    E06|E07|E09|M0*|M1*)
      rm -f "$dir"/*.elf
      avr_fw o2.elf fw/$low.cpp -O2 & local p1=$!; avr_fw os.elf fw/$low.cpp -Os & local p2=$!
      if ! g++ $HOSTFLAGS -Ifw -DUSE_GF=1 -DFW_PATHS="\"$dir/o2.elf $dir/os.elf\"" host/$low.cpp -o "$BIN" 2> "$dir/build.log"; then
        [ "$id" = E07 ] && export DST_VARIANT="operations not counted on the desktop (counting number type did not compile)"
        g++ $HOSTFLAGS -Ifw -DUSE_GF=0 -DFW_PATHS="\"$dir/o2.elf $dir/os.elf\"" host/$low.cpp -o "$BIN" 2>> "$dir/build.log"
      fi || { grep -m 6 -E "error|undefined" "$dir/build.log" >&2; return 1; }
      wait $p1 && wait $p2 || { cat "$dir"/*.elf.log | grep -m 6 -E "error|undefined|region" >&2; return 1; };;
    *) return 1;;
  esac
}
