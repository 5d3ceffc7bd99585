#!/bin/bash
# bash check.sh PROPERTY: builds the verifier when needed and runs one check.
cd "$(dirname "$0")" || exit 2
. tools/env.sh
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
bin=${VF_BIN:-/tmp/vf-build.$UID/vf}
mkdir -p "$(dirname "$bin")" || exit 2
(cd vf && go build -o "$bin" .) || exit 2
exec "$bin" check -verif "$PWD" ${VF_REPO:+-repo "$VF_REPO"} "$1"
