#!/bin/bash
# nothing to build: checks that the interpreter and the solver are there
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c 'import pysym.paths as p; p.setup_symbolic(); import pysym.engine, z3; print("z3", z3.get_version_string())'
