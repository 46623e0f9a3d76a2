#!/bin/bash
# Everything a check needs is built by the check itself from /repo's working tree; this only makes sure the tools are there.
set -e
command -v g++ java python3 >/dev/null
test -r /opt/veriftools/tla/tla2tools.jar -a -r /opt/veriftools/tla/CommunityModules-deps.jar
cd "$(dirname "$0")"
mkdir -p evidence
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash rt/build.sh "$d/bin" >/dev/null
test -x "$d/bin/driver"
