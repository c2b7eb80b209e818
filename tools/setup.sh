#!/bin/bash
# Build everything the checks share (compiled objects are cached by content hash).
cd "$(dirname "$0")/.." || exit 1
export PYTHONPATH="$PWD/lib" PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence .build
exec /opt/venv/bin/python -B -c '
import overlay, shutil
shutil.rmtree(overlay.make(("psparse", "continued_fraction", "backend")))
print("ok")'
