#!/bin/bash
# fixed.sh PROP "what failed": record the last commit of ${VERIF_REPO:-/repo} as a repair
echo "fixed: property=$1 $(git -C ${VERIF_REPO:-/repo} log -1 --format=%h) $2" >> ${VERIF_HOME:-/verif}/known-findings.txt
