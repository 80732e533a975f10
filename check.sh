#!/bin/bash
# check.sh <PROPERTY> [options]: builds the simulator from the committed files and runs one property's check
# against /repo's working tree.  Options are passed on to dst.cli (see there).
set -u
here=$(cd "$(dirname "$0")" && pwd)
exec /usr/bin/env -i \
  PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/tmp LANG=C.UTF-8 \
  VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" DST_REPO="${DST_REPO:-/repo}" DST_JOBS="${DST_JOBS:-}" \
  DST_RUNS="${DST_RUNS:-}" DST_OUT="${DST_OUT:-}" \
  PYTHONHASHSEED="${DST_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:${DST_REPO:-/repo}/src" \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 \
  NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg \
  /opt/venv/bin/python -P -m dst.launch "$@"
