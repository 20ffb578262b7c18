#!/bin/bash
# builds the symbolic execution engine from the committed sources
cd "$(dirname "$0")" && python3 -c 'import vplib; print(vplib.build_engine())'
