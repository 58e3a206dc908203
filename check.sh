#!/bin/bash
# check.sh ID            build the harness from /repo's working tree and decide property ID
# check.sh --replay FILE run one recorded case again
# VERIF_SEED (default 1) and VERIF_TIER (quick|thorough) are honoured.
# Exit 0: held; 1 and a VIOLATION line: broken; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
bin=$(harness/build.sh) || exit 2
if [ "$1" = --replay ]; then exec "$bin" replay "$2"; fi
[ -f known_findings.txt ] && grep -h "^finding: property=$1 " known_findings.txt | sed 's/^finding: /KNOWN-FINDING: /'
exec "$bin" run "$1"
