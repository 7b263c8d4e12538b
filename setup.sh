#!/bin/bash
# Nothing to build: checks that the interpreter, the package and Hypothesis are usable offline.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -c 'import common; common.load_sut(); print("hypothesis", common.hypothesis.__version__)'
