#!/bin/bash
# Nothing is installed: checks compile /repo and run TLC as they go.  Makes sure the tools and the specification are usable.
set -e
cd "$(dirname "$0")"
command -v java g++ python3 >/dev/null
test -e /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
cd spec
for m in *.tla; do
  java -cp "$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')" tla2sany.SANY "$m" > /dev/null || { echo "cannot parse $m"; exit 1; }
done
