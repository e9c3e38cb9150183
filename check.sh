#!/bin/bash
# check.sh <ID> [quick|thorough]   decide one property on /repo's current working tree
# check.sh replay <file>           show the execution of a violation artefact
# check.sh list                    list the explored spaces
here="$(dirname "$(readlink -f "$0")")"
cd "$here" || exit 2
./build.sh || exit 2
mc=mc/target/release/mc
case "$1" in
    replay) exec $mc replay "$2" ;;
    list) exec $mc list ;;
esac
tier="${2:-${VERIF_TIER:-quick}}"
exec $mc check "$1" --tier "$tier" --evidence "$here/evidence/$1.json" --known "$here/known_findings.txt" --replays "$here/replays"
