#!/bin/sh
# parse every specification module
cd "$(dirname "$0")/../spec" || exit 1
bad=0
for f in lib/*.tla models/*.tla traces/*.tla; do
  out=$(java -DTLA-Library=$PWD/lib:$PWD/traces:$PWD/models -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $f 2>&1)
  if echo "$out" | grep -q "rror"; then echo "$f"; echo "$out" | grep -v "^Parsing\|^Semantic\|^Linting" | head -30; bad=1; fi
done
exit $bad
