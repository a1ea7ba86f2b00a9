#!/bin/bash
# builds the analyser from the committed sources
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/gsa"
go build -o "$here/bin/gsa.tmp.$$" ./cmd/gsa
mv "$here/bin/gsa.tmp.$$" "$here/bin/gsa"
