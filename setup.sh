#!/bin/bash
# Nothing to build: the checks import /repo's sources directly. Confirms that the interpreter and the vendored hypothesis work.
cd "$(dirname "$0")" && PYTHONPATH=vendor /opt/venv/bin/python -c "import hypothesis, numpy, scipy, halomod; print('ready')"
