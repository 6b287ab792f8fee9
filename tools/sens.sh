#!/bin/bash
# sens.sh PROP COMMIT...: revert each fix in a scratch copy of /repo and run the property's quick check
prop=$1; shift
for c in "$@"; do
  rm -rf /tmp/sens_repo; cp -a /repo /tmp/sens_repo
  if git -C /tmp/sens_repo revert --no-edit -n "$c" >/tmp/sens.log 2>&1; then
    SIM_REPO=/tmp/sens_repo SIM_BUILD=/tmp/sens_build SIM_TIME=${SIM_TIME:-20} python3 "$(dirname "$0")/../check.py" $prop --tier quick | grep -E "VIOLATION|/" | tr '\n' ' '
    echo " <- $prop without $c"
  else echo "cannot revert $c"; fi
  rm -rf /tmp/sens_repo
done
rm -rf /tmp/sens_build
