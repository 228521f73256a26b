#!/bin/bash
# builds the driver and the dependencies' metadata, and checks that /repo can be analysed
cd "$(dirname "$0")" || exit 3
bash prepare.sh && bash dump.sh "$PWD/build/setup.json"; rc=$?
rm -f build/setup.json build/setup.json.log
exit $rc
