#!/bin/bash
# nothing to build: pure Python against /repo; verify that the interpreter imports both.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$here:/repo PYTHONWARNINGS=ignore /opt/venv/bin/python -c "import qadence, lib.ref; print('ok')"
