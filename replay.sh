#!/bin/bash
# replay.sh <contract> <seed> <iter>: run one generated input of a contract on the real code in /repo
cd "$(dirname "$0")" || exit 2
V=$PWD
[ -x bin/govc ] || ./setup.sh >&2 || exit 2
. /opt/vp/env.sh
GOVC_VERIF=$V exec bin/govc replay -c "$1" -seed "$2" -iter "$3"
