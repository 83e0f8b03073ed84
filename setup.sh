#!/bin/bash
# Nothing to compile: the checks are Python and import the code from /repo.  Sanity-check the toolchain.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -B -m compileall -q -n mc >/dev/null 2>&1
/opt/venv/bin/python -B -c "import mc.boot as b; b.boot(); import omegaconf; print('omegaconf from', omegaconf.__file__)"
