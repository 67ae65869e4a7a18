#!/bin/bash
# check.sh PROPERTY [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
bin=$("$here/build.sh" | tail -1)
[ -x "$bin" ] || { echo "the simulator does not build against /repo" >&2; exit 2; }
cd "$here" || exit 2
exec "$bin" check "$1" --dir "$here" --tier "${2:-quick}"
