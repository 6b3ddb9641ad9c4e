#!/bin/bash
# Builds the bitcode front end (tool/tian.cpp) into build/; every check does the same on demand.
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python -c "
import sys; sys.path.insert(0,'lib'); sys.dont_write_bytecode=True
import vbuild, poly; print(vbuild.tian_path()); poly.lib()"
