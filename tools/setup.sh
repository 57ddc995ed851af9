#!/bin/sh
# Nothing is built ahead of time: the specifications are interpreted by TLC and the code by Python.
# This only confirms that the toolchain is there and the specifications parse.
cd "$(dirname "$0")/../spec" || exit 1
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
cp ./*.tla "$d" && cd "$d" || exit 1
for m in MC_*.tla Trace*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > sany.out 2>&1 || { echo "does not parse: $m"; cat sany.out; exit 1; }
done
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo/src'); sys.dont_write_bytecode = True; import aaf2" || exit 1
echo setup ok
