#!/bin/bash
# Nothing to install: checks are Python + TLC. Verify the toolchain and parse the specifications.
set -e
cd "$(dirname "$0")"
python3 -c 'import sys; assert sys.version_info >= (3, 8)'
test -x /opt/venv/bin/python
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp spec/*.tla "$d"; cd "$d"
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > sany.out 2>&1 \
    || { cat sany.out; echo "does not parse: $f"; exit 1; }
done
echo "setup ok"
