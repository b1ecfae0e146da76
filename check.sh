#!/bin/bash
# check.sh <property> [quick|thorough] [options]: decide one property on /repo's current working tree.
# check.sh --setup: make sure the tools are there.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
if [ "$1" = "--setup" ]; then
  exec python -W ignore -c "import symx.run, z3, lightcurvelynx; print('z3', z3.get_version_string(), lightcurvelynx.__file__)"
fi
p="$1"; shift
t="${1:-${VERIF_TIER:-quick}}"; shift
exec python -W ignore -m symx.run "$p" --tier "$t" --seed "${VERIF_SEED:-1}" "$@"
