#!/bin/bash
# tryref.sh refactoring.diff check...: applies a behaviour-preserving edit to the scratch copy and runs checks, which must stay quiet
cd "$(dirname "$0")/.."
git -C /tmp/sw checkout -q -- . && git -C /tmp/sw clean -fdq src && git -C /tmp/sw apply "$1" || exit 3
shift
(cd /tmp/sw && ninja -C _build dbus-asio tests/all dbus-test >/tmp/tryref.build 2>&1) || { tail -20 /tmp/tryref.build; exit 3; }
python3 -c "
import sys; sys.argv=['x']
ns={'__file__':'/verif/tools/mkseed.py','__name__':'x'}
exec(compile(open('/verif/tools/mkseed.py').read(),'mkseed','exec'),ns)
print('failing tests:', ns['tests']())"
for c in "$@"; do
  s=$(date +%s); VERIF_REPO=/tmp/sw timeout 900 python3 check.py $c --tier quick >/tmp/tryref.$c 2>&1; echo "$c exit $? $(( $(date +%s)-s )) s"; grep -E "^VIOLATION" /tmp/tryref.$c
done
