#!/bin/bash
# check.sh PROPERTY TIER: verify the contracts of one property against /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
. "$here/env.sh"
"$here/build.sh" || { echo "could not build the verifier"; exit 2; }
exec "$here/bin/gocv" -verif "$here" -repo /repo -property "$prop" -tier "$tier"
