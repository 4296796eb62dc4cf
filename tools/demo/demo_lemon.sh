#!/bin/bash
# Generates a parser with the lemon under test, plays a fixed token script through it and compares everything it does.
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 2; trap 'rm -rf "$w"' EXIT
cp "$here"/*.lem "$here"/*.h "$here"/*.c "$w"/ && cp /repo/lemon/lempar.c "$w"/@TMPL@ && cd "$w" && mkdir -p out || exit 2
/repo/_build/lemon/lemon @ARGS@ >tool.out 2>&1; echo "lemon ended with $?" >out.txt
[ -f @DIR@g.c ] && [ -f @DIR@g.h ] || { cat tool.out; echo "no parser generated"; exit 1; }
gcc -std=gnu99 -w -g -fsanitize=address @DEFS@ -I. -o demo @DIR@g.c w.c demo_rt.c 2>cc.out || { cat cc.out; echo "generated parser does not compile"; exit 1; }
ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0 timeout 60 ./demo >>out.txt 2>err.txt; rc=$?
if [ $rc -ne 0 ] || ! cmp -s out.txt "$here/expected.txt"; then echo "parser behaviour differs (exit $rc)"; diff "$here/expected.txt" out.txt | head -20; head -5 err.txt; exit 1; fi
echo ok
