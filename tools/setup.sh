#!/bin/bash
# Nothing to build: the specification is interpreted by TLC and the code by
# Jython.  Check that both are there and that the specification parses.
set -e
cd "$(dirname "$0")/../spec"
command -v jython >/dev/null
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo specifications parse
