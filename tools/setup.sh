#!/bin/bash
# Builds the verifier from the committed files.
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh 2>/dev/null
mkdir -p .build && cd gvc && go build -o ../.build/gvc .
