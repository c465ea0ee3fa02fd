#!/bin/bash
# ./check.sh ID [--phase P --case I]   run one check (VERIF_TIER, VERIF_SEED from the environment)
# ./check.sh setup                     build everything
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 2
cd "$here" || exit 2
exec python3 "$here/check.py" "$@"
