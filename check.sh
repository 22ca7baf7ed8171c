#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator around the current
# sources of /repo, runs the check, rewrites evidence/PROPERTY.json.
# Exit: 0 held on everything explored, 1 violation, 2 trouble of the check itself.
set -u
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
T=$(mktemp -d /tmp/verif-check-XXXXXX) || exit 2
trap 'case "$T" in /tmp/verif-check-*) rm -rf -- "$T";; esac' EXIT
RACE=
BIN=$T/b/sim
if [ "$ID" = C02 ]; then RACE=race; BIN=$T/b/simrace; fi
bash "$HERE/build.sh" "$T/b" $RACE || { echo "check.sh: build trouble" >&2; exit 2; }
export TMPDIR=$T
export GORACE="log_path=$T/race halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4"
"$BIN" -mode driver -prop "$ID" -tier "$TIER" -seed "$SEED" \
  -evidence "${VERIF_EVIDENCE:-$HERE/evidence}/$ID.json" -known "$HERE/known-findings.txt" \
  -replays "${VERIF_REPLAYS:-$HERE/replays}" -sites "$T/b/sites.json" -wall "${VERIF_WALL:-420s}" -runs "${VERIF_RUNS:-0}"
RC=$?
case $RC in 0|1) exit $RC;; *) exit 2;; esac
