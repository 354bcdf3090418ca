#!/bin/bash
. /opt/vp/env.sh
export CCACHE_DISABLE=1 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1 MPLCONFIGDIR=/tmp PYTHONDONTWRITEBYTECODE=1
cd "$(dirname "$0")/.." && exec python -m dst.check "$@"
