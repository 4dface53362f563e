#!/bin/bash
# Nothing to build: checks that the interpreter, Hypothesis and the code under test can be imported.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '$here'); from vf import boot; boot.setup(); import hypothesis, CommDspy; print('hypothesis', hypothesis.__version__)"
