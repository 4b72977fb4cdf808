#!/bin/bash
# Nothing is compiled: TLC, the specifications and the drivers run from source.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
cd spec || exit 1
for f in MC_*.tla TR_*.tla; do
  [ -e "$f" ] || continue
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { echo "SANY rejects $f"; cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
