#!/bin/bash
# builds the MIR driver and analyses the current tree once (both cached under .build/, keyed by content)
cd "$(dirname "$0")" || exit 2
exec python3 -c "
import sys; sys.path.insert(0, 'engine')
import core; print(core.ensure_dump())"
