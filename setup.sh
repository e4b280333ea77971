#!/bin/sh
# Build the bitcode reader from the committed source.
cd "$(dirname "$0")" || exit 2
exec python3 -B -c 'from sa import build; build.build_tool()'
