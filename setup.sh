#!/bin/bash
# Nothing to build: checks import marEx from /repo. Verify the interpreter and tools are there.
cd "$(dirname "$0")" && mkdir -p evidence && /opt/venv/bin/python -c "import numpy, xarray, dask, scipy"
