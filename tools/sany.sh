#!/bin/bash
# parses every module: operators of the same name in modules that extend each other clash
cd "$(dirname "$0")/../spec"; rc=0
for m in *.tla; do
  o=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m 2>&1)
  if echo "$o" | grep -qE "Errors: [1-9]|Fatal|Could not|abort"; then echo "$m"; echo "$o" | grep -A4 "Errors:"; rc=1; fi
done; exit $rc
