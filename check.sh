#!/bin/bash
# check.sh PROPERTY TIER: decides one property against /repo's current tree
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -x bin/eng ] && [ -z "$(find engine -newer bin/eng -name '*.go' -print -quit)" ] || bash engine/build.sh || exit 2
exec bin/eng check "$1" "${2:-quick}"
