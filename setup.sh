#!/bin/bash
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
cd govc && go build -o govc . && go vet . 
