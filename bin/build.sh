#!/bin/bash
# Builds the simulator against /repo's current working tree.  Prints the path
# of the binary.  Everything is cached by content under $VERIF/build.
set -eu -o pipefail
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
B=$V/build
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
HDRH=$( (cd "$R" && find Inc -name '*.h' -type f | sort | xargs sha256sum; cd "$V" && find sim -type f | sort | xargs sha256sum; sha256sum "$V/bin/build.sh") | sha256sum | cut -c1-16)
SRCH=$( (echo "$HDRH"; cd "$R" && find Src Inc -type f | sort | xargs sha256sum) | sha256sum | cut -c1-16)
OUT=$B/sim-$SRCH
if [ -x "$OUT" ]; then echo "$OUT"; exit 0; fi
T=$(mktemp -d "$B/tmp.XXXXXX")
trap 'rm -r -f "$T"' EXIT
J=$(nproc)
# --- harness objects (depend on the public headers only)
H=$B/obj-$HDRH
INCS=$(cd "$R" && find Inc -type d | sed "s#^#-I$R/#" | tr '\n' ' ')
if [ ! -e "$H/done" ]; then
  mkdir -p "$H"
  (cd "$R/Inc" && find . -name '*.h' -type f | sort | sed 's#^\./\(.*\)$#\#include "\1"#') > "$H/all_headers.inc"
  ls "$V"/sim/*.cpp | xargs -P "$J" -I{} sh -c 'g++ -std=c++17 -O1 -g -fno-pie -fno-omit-frame-pointer -fno-stack-protector -U_FORTIFY_SOURCE -fpermissive -Drestrict=__restrict -D_Bool=bool -D_Static_assert=static_assert -Wall -Wextra -I'"$H"' '"$INCS"' -c {} -o '"$H"'/$(basename {} .cpp).o'
  touch "$H/done"
fi
# --- the library, twice
CF="-std=gnu99 -g -fno-pie -fno-builtin -fno-common -fno-stack-protector -w -fsanitize=kernel-address -fsanitize-coverage=trace-pc-guard -mllvm -asan-instrumentation-with-call-threshold=0 -mllvm -asan-globals=1 -mllvm -asan-stack=1 -mllvm -asan-mapping-offset=0x7fff8000 $INCS"
mkdir -p "$T/0" "$T/1"
cd "$R"
find Src -name '*.c' -type f | sort > "$T/list"
xargs -P "$J" -I{} sh -c 'o=$(echo {} | tr / _); clang '"$CF"' -O0 -fsigned-char -c {} -o '"$T"'/0/$o.o && clang '"$CF"' -O2 -funsigned-char -c {} -o '"$T"'/1/$o.o' < "$T/list"
# the functions' addresses, taken in C and with the library's own settings
{ cat "$H/all_headers.inc"; sed -n '/^#define CRC_FUNCS/,/^ X(Utils_isUpperChar)/p' "$V/sim/lib.h"; echo 'typedef void (*sim_api_t)(void);'; echo '#define X(f) (sim_api_t)f,'; echo 'const sim_api_t sim_api[] = { FUNCS(X) };'; } > "$T/api.c"
clang $CF -O0 -fsigned-char -c "$T/api.c" -o "$T/0/sim_api.o" & clang $CF -O2 -funsigned-char -c "$T/api.c" -o "$T/1/sim_api.o"; wait
R1=""
for f in memcpy memmove memset memcmp memchr strlen strnlen strcpy stpcpy strncpy strcat strncat strcmp strncmp strchr strrchr strstr strdup malloc calloc realloc free aligned_alloc posix_memalign; do R1="$R1 --redefine-sym $f=sim_$f"; done
for b in 0 1; do
  ld -r -o "$T/lib$b.raw.o" "$T/$b"/*.o
  X=""
  if [ $b = 1 ]; then
    nm -g --defined-only "$T/lib1.raw.o" | awk '$3 !~ /^(__sancov|__start|__stop|asan\.|sancov\.)/ {print $3" u_"$3}' > "$T/ren"
    X="--redefine-syms=$T/ren"
  fi
  objcopy $R1 $X --set-section-flags .bss=alloc,load,contents,data --rename-section .data=libdata$b,alloc,load,data,contents --rename-section .bss=libbss$b,alloc,load,data,contents "$T/lib$b.raw.o" "$T/lib$b.o"
done
g++ -no-pie -static -o "$T/sim" "$H"/*.o "$T/lib0.o" "$T/lib1.o"
mv "$T/sim" "$OUT"
# keep the cache small
ls -t "$B"/sim-* 2>/dev/null | tail -n +6 | while read -r f; do rm -f "$f"; done
ls -dt "$B"/obj-* 2>/dev/null | tail -n +4 | while read -r f; do rm -r -f "$f"; done
echo "$OUT"
