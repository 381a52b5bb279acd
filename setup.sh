#!/bin/bash
# Parses every specification module; the checks need nothing else.
cd "$(dirname "${BASH_SOURCE[0]}")/spec" || exit 1
d=$(mktemp -d)
for m in *.tla; do
  if ! java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$d/out" 2>&1; then
    cat "$d/out"; rm -rf "$d"; exit 1
  fi
done
rm -rf "$d"
echo setup ok
