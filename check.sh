#!/bin/bash
# Usage: check.sh <property id>   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -B check.py "$@"
