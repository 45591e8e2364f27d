#!/bin/bash
# builds the MIR dumper and dumps the current tree once
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0, 'sa')
import prog; print(prog.dump())"
