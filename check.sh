#!/bin/bash
# check.sh PROPERTY: decides one property on the working tree of /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ ! -x bin/vxverif ]; then
  bash ./setup.sh || exit 2
fi
GOFLAGS=-mod=readonly exec ./bin/vxverif "$1"
