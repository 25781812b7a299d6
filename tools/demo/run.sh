#!/bin/bash
# tools/demo/run.sh FILE.rs [repo]: build prelude+FILE against repo and run
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/dr.XXXXXX); trap 'rm -rf "$w"' EXIT
cat "$here/prelude.rs" "$1" > "$w/demo.rs"; cp "$here/demo.sh" "$w/"
cd "${2:-/repo}" && bash "$w/demo.sh"
