#!/bin/sh
# Nothing to build: check that the code under test and the tools import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -c '
from zv import env
env.setup()
import hypothesis, zcollection
print("hypothesis", hypothesis.__version__, "zcollection", zcollection.__file__)
'
