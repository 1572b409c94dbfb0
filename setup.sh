#!/bin/bash
# Nothing is built ahead of time: every check imports the working tree of /repo. Only verify the tools exist.
set -e
/opt/venv/bin/python -c "import numpy, scipy, matplotlib" 
mkdir -p "$(dirname "$0")/evidence"
echo setup ok
