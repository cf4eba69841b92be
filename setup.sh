#!/bin/bash
# nothing to build: the framework is Python run from the committed files; verify that the tools it needs are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, scipy, sklearn, bayes_opt" && PYTHONPATH=/repo/src /opt/venv/bin/python -c "import MuyGPyS"
