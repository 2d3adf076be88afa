#!/bin/bash
# builds the verifier (offline) into bin/gocv
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/gocv" && go build -o "$here/bin/gocv" .
