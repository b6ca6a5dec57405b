#!/bin/bash
# Builds the analyzer from the vendored sources into the git-ignored .build folder.
sa_dir=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
(cd "$sa_dir/sa" && mkdir -p "$sa_dir/.build" && GOFLAGS= go build -mod=vendor -o "$sa_dir/.build/sa" .)
