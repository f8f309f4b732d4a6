#!/bin/bash
# nothing to build ahead of time: every check imports (and, for the compiled modules, builds in its own
# scratch directory) the code of /repo's current working tree.  Only the tools are checked here.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy; print('numpy', numpy.__version__, 'scipy', scipy.__version__)"
