#!/bin/sh
# usage: check.sh <property id>   (environment: VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 exec python3 engine/check.py "$1"
