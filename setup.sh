#!/bin/bash
# Nothing to build: checks import the working tree of /repo. Fail early if they cannot.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -B -c 'import sys; sys.path.insert(0, "."); from rv.common import import_tealish; import_tealish(); from rv.checks import all_checks; print(len(all_checks()), "checks")'
