#!/bin/bash
# Builds the verifier and the harness once, which also warms the build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence out
(cd gvc && go build -o ../bin/gvc .) || exit 2
(cd harness && go build -o ../bin/harness .) || exit 2
for t in z3 z3-new cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 2; }; done
echo ok
