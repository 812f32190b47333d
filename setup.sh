#!/bin/sh
# Builds the harness once (checks rebuild what they need themselves).
cd "$(dirname "$0")" && python3 -c "import vlib; vlib.build_harness(True); vlib.build_harness(False, ['rep'])" && sany=$(command -v tlc) && echo "setup ok ($sany)"
