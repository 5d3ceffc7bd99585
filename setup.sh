#!/bin/bash
# builds the verifier and warms the build cache of the packages under contract
cd "$(dirname "$0")" || exit 2
. tools/env.sh
mkdir -p /tmp/vf-build.$UID && (cd vf && go build -o /tmp/vf-build.$UID/vf .) || exit 2
. /opt/vp/env.sh
cd /repo && go build ./... || exit 2
exit 0
