#!/bin/sh
# Offline, nothing to build: check that the tools the checks use are there and the specifications parse.
set -e
cd "$(dirname "$0")"
test -x /opt/pvenv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence work replays
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > ../work/sany.log 2>&1 || { cat ../work/sany.log; exit 1; }
done
echo setup ok
