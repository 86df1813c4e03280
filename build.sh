#!/bin/bash
# build.sh: build the verifier from the committed sources.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$here/build"
cd "$here/gcv" && go build -o "$here/build/gcv" .
