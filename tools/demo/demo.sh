#!/bin/bash
# Compiles the add-on's sources in the current directory's working tree together
# with demo.cpp, and runs the demonstration in a scratch directory.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
W="$(mktemp -d /tmp/demobuildXXXXXX)" || exit 2
trap 'rm -rf "$W"' EXIT
I="-I$R/src -I$R/src/Engine -I$R/src/Engine/Mandarin -I$R/src/Engine/gramambular2 -I$R/src/ChineseNumbers -I$HERE"
for m in Module/fcitx-module/notifications Module Core Config Utils; do I="$I -I/usr/include/Fcitx5/$m"; done
I="$I -I/usr/include/json-c"
F="-std=c++17 -O0 -w -D_GLIBCXX_ASSERTIONS -DFCITX_GETTEXT_DOMAIN=\"fcitx5-mcbopomofo\" -DFMT_SHARED -fsanitize=address -fno-omit-frame-pointer"
S="$(find "$R/src" -name '*.cpp' ! -iname '*test.cpp' ! -iname '*benchmark.cpp' ! -name '*_test*' ! -name '*_bench*' ! -name '*_main*')"
printf '%s\n' $S "$HERE/demo.cpp" | xargs -P 8 -I{} sh -c 'o=$(echo "$1" | tr / _); g++ '"$(printf '%s ' $F $I | sed 's/"/\\"/g')"' -c "$1" -o "'"$W"'/$o.o"' _ {} || exit 2
g++ -fsanitize=address -rdynamic "$W"/*.o -o "$W/demo" -lFcitx5Core -lFcitx5Config -lFcitx5Utils -lfmt -ljson-c -licui18n -licuuc -ldl -lpthread || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$W/demo"
