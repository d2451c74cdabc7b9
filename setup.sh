#!/bin/bash
# Nothing to install: checks build what they need from /repo when they run.
# Make sure that the tools are there and that every specification module parses.
set -e
cd "$(dirname "$0")"
go version
test -f /opt/veriftools/tla/tla2tools.jar
T=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$T"' EXIT
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cp spec/*.tla "$T"
cd "$T"
ls *.tla | xargs -P 4 -I{} sh -c 'timeout 300 java -Djava.io.tmpdir='"$T"' -cp '"$CP"' tla2sany.SANY {} > {}.log 2>&1 || { cat {}.log; exit 255; }'
echo "specification modules parse: $(ls *.tla | wc -l)"
