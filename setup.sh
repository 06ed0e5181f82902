#!/bin/bash
# Nothing to build: the checks import dyna from /repo's working tree. Verify that this works.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 CI=true MPLBACKEND=Agg
/opt/venv/bin/python -c "
import sys; sys.path.insert(0,'/repo'); sys.path.insert(0,'lib')
import dyna, ref, gen, conv
assert dyna.__file__.startswith('/repo/'), dyna.__file__
print('dyna from', dyna.__file__)"
