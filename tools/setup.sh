#!/bin/sh
# Nothing to build: checks that the tools the checks use are there and that the specification parses.
set -e
cd "$(dirname "$0")/../spec"
for m in Trace MCRows MCEdit MCLines MCInclude MCRef; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla >/dev/null
done
/opt/venv/bin/python -W ignore -c 'import metatab'
