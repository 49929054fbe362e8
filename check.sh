#!/bin/bash
# usage: check.sh CXX [quick|thorough]      explore one property
#        check.sh replay FILE               re-execute a violation
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD:/repo/src"
exec /opt/venv-pypy/bin/python -W ignore -m mc "$@"
