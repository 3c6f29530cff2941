#!/bin/bash
# nothing to build: checks import the code from /repo; make sure the interpreter and harness are usable
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "import harness.core, harness.world, harness.client, harness.confs, harness.pinned; import turms.run; print('ready')"
