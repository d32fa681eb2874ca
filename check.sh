#!/bin/bash
# check.sh PROPERTY: decide one property on /repo's current tree (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$PWD"
if [ ! -x bin/gosym ] || [ -n "$(find engine -maxdepth 1 -name '*.go' -newer bin/gosym -print -quit)" ]; then
  bash setup.sh || exit 2
fi
exec bin/gosym check "$@"
