#!/bin/bash
# Nothing to build: the specifications are checked by TLC and the code is imported
# from /repo/src.  Make sure that the tools are there and every module parses.
cd "$(dirname "$0")"
test -x /opt/venv/bin/python || { echo "no /opt/venv"; exit 1; }
mkdir -p out evidence
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
for m in *.tla; do
  java -cp $J tla2sany.SANY $m > ../out/sany.log 2>&1 || { cat ../out/sany.log; exit 1; }
done
echo "specifications parse"
