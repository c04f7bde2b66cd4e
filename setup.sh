#!/bin/bash
# Build the plotting font cache once so that checks never write it while running.
set -e
cd "$(dirname "$0")"
mkdir -p .cache/mpl evidence replays
chmod 755 .cache .cache/mpl
MPLBACKEND=Agg MPLCONFIGDIR="$PWD/.cache/mpl" /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '/repo/python/src')
import matplotlib.pyplot as plt, scipy, numpy
plt.figure().savefig('/dev/null', format='png')
import adctoolbox
print('ready', numpy.__version__, scipy.__version__)
"
