#!/bin/bash
# check.sh ID            run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE   replay one violation
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
if [ "$1" = replay ]; then exec /opt/venv/bin/python -m sim.main replay "$2"; fi
exec /opt/venv/bin/python -m sim.main run "$1"
