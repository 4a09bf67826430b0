#!/bin/bash
# thorough.sh ID [SECONDS]: the check with its thorough numbers of cases, then SECONDS of coverage-guided search
here="$(cd "$(dirname "$0")/.." && pwd)"
VERIF_TIER=thorough bash "$here/tools/run.sh" check "$1" || exit $?
exec bash "$here/tools/search.sh" "$1" "${2:-1200}"
