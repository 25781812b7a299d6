#!/bin/bash
# run every rule that exists, 4 at a time; print those that do not exit 0
cd "$(dirname "$0")/.."
ls rules | sed -n 's/^c\([0-9]*\)\.py$/C\1/p' | xargs -P 5 -I{} bash -c './check {} >/tmp/all.{}.log 2>&1; r=$?; [ $r = 0 ] || { echo "{} rc=$r"; grep -m3 -a "VIOLATION\|Error" /tmp/all.{}.log | cut -c1-300; }'
echo done
