#!/bin/bash
# Everything is interpreted: check that the tools are there and that every
# specification parses.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo"); import pyslet' || exit 1
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cp spec/*.tla "$t"/ || exit 1
cd "$t" || exit 1
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
# modules that are instantiated by generated roots parse on their own too
printf '%s\n' *.tla | xargs -P 8 -I{} sh -c \
    "java -XX:+UseSerialGC -XX:TieredStopAtLevel=1 -cp $JARS tla2sany.SANY {} >{}.log 2>&1 || { cat {}.log; echo cannot parse {}; exit 255; }" \
    || exit 1
echo "parsed $(ls *.tla | wc -l) specification modules"
