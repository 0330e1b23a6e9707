#!/bin/bash
# builds the MIR extraction driver (offline)
cd "$(dirname "$0")" && exec python3 -c 'import sys; sys.path.insert(0,"sa"); import core; print(core.build_driver())'
