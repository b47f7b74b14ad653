#!/bin/bash
# Compiles every harness once (warms the build cache); the checks rebuild themselves from /repo's working tree.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false" HOME="${HOME:-/root}"
cd "$(dirname "$0")/mc" || exit 1
for d in cmd/*/; do go build -o /dev/null "./$d" || echo "warning: $d does not build" >&2; done
for t in buildifier buildozer unused_deps; do go build -o /dev/null github.com/bazelbuild/buildtools/$t || echo "warning: $t does not build" >&2; done
exit 0
