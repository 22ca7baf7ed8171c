#!/bin/bash
# setup.sh: checks that everything builds offline (this also warms the build
# cache; each check builds again, from the sources it finds then).
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
T=$(mktemp -d /tmp/verif-check-XXXXXX) || exit 2
trap 'case "$T" in /tmp/verif-check-*) rm -rf -- "$T";; esac' EXIT
bash "$HERE/build.sh" "$T/b" && bash "$HERE/build.sh" "$T/b" race && mkdir -p "$HERE/evidence" "$HERE/replays" && echo "setup: ok"
