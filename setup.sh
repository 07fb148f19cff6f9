#!/bin/bash
# Warms the Go build cache of the checks (they also work without it, only slower).
cd "$(dirname "$0")" || exit 1
. lib/env.sh
tmp=$(mktemp -d /tmp/vf-setup.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
(cd /repo && go test -c -vet=off -o "$tmp/a.test" ./lens && go test -race -c -vet=off -o "$tmp/b.test" ./lens)
java -version >/dev/null 2>&1 || exit 1
exit 0
