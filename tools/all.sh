#!/bin/bash
# all.sh [check...]: the quick checks, one after another
cd "$(dirname "$0")/.."
for c in ${@:-$(seq -f C%02g 1 34)}; do
  s=$(date +%s); timeout 900 python3 check.py $c --tier quick >/tmp/all.$c 2>&1; echo "$c exit $? $(( $(date +%s)-s )) s"; grep -E "^(VIOLATION|KNOWN)" /tmp/all.$c
done
