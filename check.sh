#!/bin/bash
# usage: check.sh PROPERTY  — decides one property of /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
bin="$here/bin/gsa"
if [ ! -x "$bin" ]; then bash "$here/setup.sh" || exit 2; fi
exec "$bin" -verif "$here" "$@"
