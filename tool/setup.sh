#!/bin/sh
# builds the fact exporter (the checks build it themselves when it is missing)
cd "$(dirname "$0")/.." && python3 -c "import sys; sys.path.insert(0,'analysis'); import program; print(program.tool_path())"
