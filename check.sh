#!/bin/bash
# check.sh PROPERTY: decide one property on /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
bash "$here/build.sh" || exit 2
exec "$here/build/gcv" -verif "$here" -check "$1"
