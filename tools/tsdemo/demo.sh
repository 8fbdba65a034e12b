#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
node "$here/bundle.mjs" /repo "$here" "$t" && node "$t/out.mjs"
