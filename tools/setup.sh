#!/bin/bash
# Checks that everything is there: the specification parses, the driver builds.
cd "$(dirname "$0")/.." || exit 3
d=$(mktemp -d /tmp/verif-setup-XXXXXX); trap 'rm -rf "$d"' EXIT
tools/build.sh "$d/bin" || exit 3
cd spec && for m in *.tla; do
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$d/sany" 2>&1 || { cat "$d/sany"; exit 3; }
done
echo ok
