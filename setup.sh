#!/bin/sh
# Builds the guard allocator (used by C13); everything else is plain Python.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ -f native/guard.c ]; then
    gcc -O2 -fPIC -shared -o build/libguard.so native/guard.c -ldl
fi
/opt/venv/bin/python -c "import blosc, numpy, sys; sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True; import bloscpack"
