#!/bin/sh
# Nothing is kept from one run to the next: every check builds what it needs. This only tells early whether the tools are there.
cd "$(dirname "$0")" || exit 1
/usr/bin/python3 -B -c "
import sys, tempfile, shutil
sys.path.insert(0, '.')
from vf import core
core.set_env()
w = core.scratch()
try:
    sys.path.insert(0, core.deps(w))
    import hypothesis, numpy, scipy, mpmath
    core.build(w)
    print('ready: hypothesis %s, numpy %s, scipy %s' % (hypothesis.__version__, numpy.__version__, scipy.__version__))
finally:
    shutil.rmtree(w, ignore_errors=True)
"
