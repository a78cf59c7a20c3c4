#!/bin/bash
# check.sh PROPERTY TIER: decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 1
. ./env.sh
if [ ! -x bin/gosym ] || [ -n "$(find gosym -newer bin/gosym -print -quit)" ]; then
  ./setup.sh || { echo "engine build failed"; exit 2; }
fi
exec bin/gosym check -prop "$1" -tier "$2" "${@:3}"
