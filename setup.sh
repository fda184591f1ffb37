#!/bin/bash
# nothing to build: checks that the interpreter and the code under test can be imported
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c "import mon.core as c; c.load_treeno(); import mon.probe; print('ok')"
