#!/bin/bash
# Usage: check.sh Cxx — verifies every contract the property rests on against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
[ -x "$here/bin/gov" ] || "$here/tool/build.sh" || exit 2
exec "$here/bin/gov" -check "$1"
