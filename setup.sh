#!/bin/bash
# Puts Hypothesis where run.py finds it (run.py falls back to the tools venv without it).
cd "$(dirname "$0")" || exit 2
[ -d .deps/hypothesis ] && exit 0
/opt/veriftools/pyvenv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis >/dev/null 2>&1 \
  || /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis >/dev/null 2>&1 \
  || { mkdir -p .deps; for n in hypothesis sortedcontainers attr attrs; do cp -r /opt/veriftools/pyvenv/lib/python3.12/site-packages/$n .deps/ 2>/dev/null; done; }
exit 0
