#!/bin/bash
# check.sh <property> [--tier quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3-vt vc/check.py "$@"
