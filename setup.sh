#!/bin/bash
# Nothing is compiled: the checks read /repo's source on every run.  This only
# makes sure the tools are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence
python3-vt -c "import z3; print('z3', z3.get_version_string())" && /opt/venv/bin/python -c "import lxml, pygeoif, arrow; print('libraries present')"
