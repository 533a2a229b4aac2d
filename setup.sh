#!/bin/sh
# builds the analysis tool (LLVM IR dumper); the checks generate IR from /repo themselves
cd "$(dirname "$0")" && exec python3-vt -c "
import sys; sys.path.insert(0,'lib'); import jx; print(jx.build_tool())"
