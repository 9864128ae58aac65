#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= WANDB_MODE=offline PYTHONHASHSEED=0
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} MKL_NUM_THREADS=${MKL_NUM_THREADS:-2}
SCRATCH=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 3
export MPLCONFIGDIR="$SCRATCH/mpl" VERIF_SCRATCH="$SCRATCH" XDG_CACHE_HOME="$SCRATCH/cache"
mkdir -p "$MPLCONFIGDIR"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -m vlib.run "$@"
rc=$?
rm -rf -- "$SCRATCH"
exit $rc
