#!/bin/bash
# replay.sh FILE: executes a replay file against the current sources of /repo.
# Exit 1 and a VIOLATION line when the violation is (still) there, 0 when not.
set -u
FILE=$(readlink -f "$1")
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
T=$(mktemp -d /tmp/verif-check-XXXXXX) || exit 2
trap 'case "$T" in /tmp/verif-check-*) rm -rf -- "$T";; esac' EXIT
RACE=
BIN=$T/b/sim
if grep -q '"property": "C02"' "$FILE"; then RACE=race; BIN=$T/b/simrace; fi
bash "$HERE/build.sh" "$T/b" $RACE || exit 2
export TMPDIR=$T
export GORACE="log_path=$T/race halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4"
"$BIN" -mode replay -file "$FILE"
