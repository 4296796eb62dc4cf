#!/bin/bash
# Generates a parser with the byacc under test, plays a fixed token script through it and compares everything it does.
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 2; trap 'rm -rf "$w"' EXIT
cp "$here"/g.y "$here"/*.h "$here"/demo_rt.c "$w"/ && cd "$w" || exit 2
/repo/_build/@FLAVOR@/yacc @ARGS@ >tool.out 2>&1 || { cat tool.out; echo "byacc failed"; exit 1; }
gcc -std=gnu99 -w -g -fsanitize=address -I. -o demo @SRC@ demo_rt.c 2>cc.out || { cat cc.out; echo "generated parser does not compile"; exit 1; }
ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0 timeout 60 ./demo >out.txt 2>err.txt; rc=$?
if [ $rc -ne 0 ] || ! cmp -s out.txt "$here/expected.txt"; then echo "parser behaviour differs (exit $rc)"; diff "$here/expected.txt" out.txt | head -20; head -5 err.txt; exit 1; fi
echo ok
