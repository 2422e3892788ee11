#!/bin/bash
# Nothing to compile: verifies that the interpreter and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "from vk import core; core.bootstrap(); print('setup ok')"
