#!/bin/bash
# replay.sh FILE [--log]: executes a recorded replay file again, exactly, with the library built as it was.
f=$(realpath "$1"); shift
p=release
grep -q '"profile": "shipped"' "$f" && p=shipped
t=target
opts=
grep -q '"property": "F21"' "$f" && { t=target-ffi; opts="--features ffi --target-dir target-ffi"; }
cd "$(dirname "$0")/sim" && cargo build --profile $p --offline $opts >/dev/null 2>&1 || exit 2
exec $t/$p/dst replay "$f" "$@"
