#!/bin/bash
# Warms the build cache; every check rebuilds by itself.
set -e
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
B=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX")
trap 'rm -rf -- "$B"' EXIT
build_vh "$B" all
"$B/vh" list
