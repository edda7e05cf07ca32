#!/bin/bash
# check.sh <property> [quick|thorough]: verify the contracts of one property against /repo's current tree
cd "$(dirname "$0")" || exit 2
V=$PWD
[ -x bin/govc ] && [ -z "$(find govc -newer bin/govc -name '*.go' | head -1)" ] || ./setup.sh >&2 || exit 2
. /opt/vp/env.sh
GOVC_VERIF=$V exec bin/govc check -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
