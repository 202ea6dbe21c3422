#!/bin/bash
# Usage: run.sh <property>   Builds the checker from its vendored source and runs one check on /repo.
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/local/go/bin:/usr/sbin:/usr/bin:/sbin:/bin
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bin=$(mktemp -d "${TMPDIR:-/tmp}/cforgocheck.XXXXXX") || exit 3
trap 'rm -rf "$bin"' EXIT
(cd "$dir/checker" && GOFLAGS="-mod=vendor -buildvcs=false" go build -o "$bin/check" .) || exit 3
export CFG_VERIF=$dir
export GOFLAGS="-mod=readonly -buildvcs=false"
"$bin/check" "$@"
