#!/bin/bash
# The checks need no build. Make sure that the tools and the library can be imported.
export PYTHONDONTWRITEBYTECODE=1
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "
import sys
sys.path.insert(0, 'checks')
import vlib, hypothesis, mpmath, numpy, scipy, ries
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'ries', ries.__file__)
"
