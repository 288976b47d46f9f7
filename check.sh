#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on the current tree of /repo (default tier: VERIF_TIER or quick)
cd "$(dirname "$0")"
exec python3 -m analysis.run "$@"
