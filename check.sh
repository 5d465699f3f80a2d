#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]  -- decide one property against /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -m mc "$1" --tier "${2:-quick}"
