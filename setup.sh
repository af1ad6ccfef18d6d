#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo's working tree. This
# only verifies that the tools are there and that the reference model passes its known answers.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
for t in gcc clang python3; do command -v $t >/dev/null; done
gcc -O2 ref/selftest.c ref/ref.c -I ref -o "$d/selftest" -lcrypto
"$d/selftest"
