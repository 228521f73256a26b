#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current working tree
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 3
P=$1
mkdir -p build evidence
D=$(mktemp -d "$V/build/run.XXXXXX")
trap 'rm -rf "$D"' EXIT
(
  flock 9
  bash prepare.sh || exit 3
  bash dump.sh "$D/dump.json"
) 9>build/lock || exit 3
python3 engine/main.py "$D/dump.json" "$P" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" evidence
