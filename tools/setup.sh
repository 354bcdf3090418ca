#!/bin/bash
# Builds the simulated extension modules (host and accelerator flavour) from /repo into /verif/.build.
. /opt/vp/env.sh
export CCACHE_DISABLE=1
cd "$(dirname "$0")/.." && exec python -m dst.build
