#!/bin/bash
# builds the engine offline from the module cache
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOWORK=off
mkdir -p ../bin
exec go build -o ../bin/eng .
