#!/bin/sh
# Nothing to build ahead of time: every check compiles what it needs from /repo's current tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -c "import torch, sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print(torch.__version__, z3.get_version_string())"
command -v g++ >/dev/null
