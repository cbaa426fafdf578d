#!/bin/bash
# Checks that the toolchain is present and every TLA+ module parses.
cd "$(dirname "$0")" || exit 1
rc=0
[ -x /opt/venv/bin/python ] || { echo "no /opt/venv/bin/python"; rc=1; }
cp=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
tmp=$(mktemp -d /tmp/vp_setup_XXXXXX)
cd spec
for f in *.tla; do
  [ -e "$f" ] || continue
  if ! java -Djava.io.tmpdir="$tmp" -cp "$cp" tla2sany.SANY "$f" > "$tmp/out" 2>&1 || grep -q "^\*\*\* Errors\|Fatal errors" "$tmp/out"; then
    echo "parse error in $f"; cat "$tmp/out"; rc=1
  fi
done
rm -rf "$tmp"
exit $rc
