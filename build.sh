#!/bin/bash
# build.sh <variant>  — builds the runner of that variant from /repo's current working tree and prints its directory.
#   plain : -O1                         asan : -O1 + AddressSanitizer + UndefinedBehaviorSanitizer
#   ngen  : plain, the library compiled with -DNGEN as for the framework
#   exe   : plain, plus the standalone program (src/bmi_main_lgar.cxx) as ./lasam
# Everything lands in /verif/build (ignored by git), keyed by the content of the sources, so a stale build cannot be used.
set -u
export LC_ALL=C PATH=/usr/local/bin:/usr/bin:/bin
here=$(cd "$(dirname "$0")" && pwd); repo=${LGAR_REPO:-/repo}; variant=${1:-plain}
B=$here/build; mkdir -p "$B"
hsum() { cat "$@" 2>/dev/null | sha256sum | cut -c1-16; }
rkey=$( (cd "$repo" && find src include bmi giuh -type f | sort | while read -r f; do echo "$f"; cat "$f"; done; cat CMakeLists.txt) | sha256sum | cut -c1-16)
hkey=$(hsum "$here"/harness/*.cpp "$here"/harness/*.hpp "$here/build.sh")
case $variant in
  asan) san="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer" ;;
  *) san="" ;;
esac
lib=""; [ "$variant" = ngen ] && lib="-DNGEN"
hv=plain; [ "$variant" = asan ] && hv=asan
D=$B/$variant-$rkey-$hkey H=$B/h$hv-$hkey
if [ ! -x "$D/runner" ] || { [ "$variant" = exe ] && [ ! -x "$D/lasam" ]; }; then
  T=$(mktemp -d "$B/tmp.XXXXXX") || exit 2
  mkdir -p "$H"
  # library sources as the project's own build lists them
  srcs=$(cd "$repo" && sed -n '/add_library(lasambmi/,/)/p' CMakeLists.txt | tr ' ()\t' '\n\n\n\n' | grep -E '\.(cxx|cpp|cc|c)$' | sed 's|^\./||' | sort -u)
  [ -n "$srcs" ] || srcs="src/bmi_lgar.cxx src/lgar.cxx src/soil_funcs.cxx src/linked_list.cxx src/mem_funcs.cxx src/util_funcs.cxx src/aet.cxx giuh/giuh.c"
  {
    echo "all: $T/runner $([ "$variant" = exe ] && echo "$T/lasam")"
    objs=""
    for s in $srcs; do
      o=$T/$(echo "$s" | tr '/.' '__').o; objs="$objs $o"
      case $s in *.c) cc="gcc" ;; *) cc="g++ -std=c++14" ;; esac
      printf '%s:\n\t%s -O1 -g1 -w -DBMI_ACTIVE %s -I%s/include -c %s/%s -o %s\n' "$o" "$cc" "$lib $san" "$repo" "$repo" "$s" "$o"
    done
    printf '%s/sim.o:\n\tg++ -std=c++17 -O1 -g1 -w -DBMI_ACTIVE %s -I%s/include -DLGAR_BMI_HEADER=\x27"%s/include/bmi_lgar.hxx"\x27 -c %s/harness/sim.cpp -o %s/sim.o\n' "$T" "$san" "$repo" "$repo" "$here" "$T"
    hobjs=""
    for f in "$here"/harness/*.cpp; do
      n=$(basename "$f" .cpp); [ "$n" = sim ] && continue
      o=$H/$n.o; hobjs="$hobjs $o"
      printf '%s: %s\n\tg++ -std=c++17 -O1 -g1 -Wall -Wno-misleading-indentation %s -c %s -o %s.%s && mv -f %s.%s %s\n' "$o" "$f" "$san" "$f" "$o" "$$" "$o" "$$" "$o"
    done
    printf '%s/runner: %s %s/sim.o %s\n\tg++ %s %s %s/sim.o %s -o %s/runner -Wl,--wrap=abort,--wrap=exit,--wrap=__assert_fail\n' "$T" "$objs" "$T" "$hobjs" "$san" "$objs" "$T" "$hobjs" "$T"
    if [ "$variant" = exe ]; then
      printf '%s/main_lgar.o:\n\tg++ -std=c++14 -O1 -g1 -w -DBMI_ACTIVE -I%s/include -c %s/src/bmi_main_lgar.cxx -o %s/main_lgar.o\n' "$T" "$repo" "$repo" "$T"
      printf '%s/lasam: %s/main_lgar.o %s\n\tg++ %s/main_lgar.o %s -o %s/lasam\n' "$T" "$T" "$objs" "$T" "$objs" "$T"
    fi
  } > "$T/Makefile"
  if ! make -s -j"$(nproc)" -f "$T/Makefile" all > "$T/log" 2>&1; then cat "$T/log" >&2; rm -rf "$T"; exit 2; fi
  rm -f "$T"/*.o
  rm -rf "$D"; mv "$T" "$D" 2>/dev/null || rm -rf "$T"
  # keep the cache small
  ls -dt "$B/$variant"-* 2>/dev/null | tail -n +5 | xargs -r rm -rf
  ls -dt "$B/h$hv"-* 2>/dev/null | tail -n +3 | xargs -r rm -rf
fi
echo "$D"
