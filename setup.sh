#!/bin/bash
# Builds everything the checks need, so that they only rebuild what changed.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
. "$here/build.sh" || exit 3
bad="$(variant_builds)"
[ -z "$bad" ] || { echo "does not build with features: $bad"; exit 3; }
exit 0
