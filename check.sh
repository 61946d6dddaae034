#!/bin/sh
# Runs one property's simulation against /repo's working tree. All choices come from VERIF_SEED.
exec /opt/venv/bin/python "$(dirname "$0")/check.py" "$@"
