#!/bin/sh
# Nothing is downloaded or installed; the checks build the disk interposer themselves in their scratch folder.
set -e
command -v gcc >/dev/null
/opt/venv/bin/python -c "import numpy, scipy, torch, numba, pyevtk"
