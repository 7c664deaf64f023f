#!/bin/bash
# check.sh ID [quick|thorough] [extra args]: decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 3
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
export PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python3 -m slv.run "$id" --tier "$tier" "$@"
