#!/bin/bash
# nothing to build: confirm that the interpreter, z3 and the package load.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c '
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from symx import load
from props import registry, stubs
w = load.World(extra_modules=stubs())
print("z3", z3.get_version_string(), "-", len(w.files), "source files,", len(registry()), "harnesses")
'
