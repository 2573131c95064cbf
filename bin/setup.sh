#!/bin/bash
# Builds nothing that a check needs (each check builds its harness itself from /repo); verifies the tools are there.
cd "$(dirname "$0")/.." || exit 1
command -v cargo >/dev/null && command -v java >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar || exit 1
python3 -c "import json; json.load(open('MANIFEST.json'))" || exit 1
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >/tmp/sany.$$ 2>&1) \
    || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
