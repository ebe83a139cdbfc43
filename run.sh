#!/bin/sh
# ./run.sh CXX [--tier quick|thorough]   or   ./run.sh replay FILE
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 PYTHONPATH= PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore exec /opt/venv/bin/python -B -m mc.main "$@"
