#!/bin/bash
# Usage: check.sh PROPERTY
# Builds the verifier and decides the property for /repo's current tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
here=$(pwd)
(cd govc && go build -o govc .) || exit 2
exec ./govc/govc -check "$1" -verif "$here" -repo "${VERIF_REPO_DIR:-/repo}"
