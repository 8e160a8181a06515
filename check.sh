#!/bin/bash
# check.sh Cxx [quick|thorough]  |  check.sh -replay FILE
# Decides one property of /repo's current working tree (see DESIGN.md).
here=$(cd "$(dirname "$0")" && pwd)
"$here/setup.sh" >&2 || exit 2
[ "$1" = -replay ] && exec "$here/bin/vsym" -verif "$here" -replay "$2"
exec "$here/bin/vsym" -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
