#!/bin/sh
# build the MIR driver and the analyser
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'lib')
import core; print(core.build_tools())"
