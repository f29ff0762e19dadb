#!/bin/bash
# builds the harness once (every check builds it again from /repo's current tree) and warms the Go build cache
set -e
cd "$(dirname "$0")/.."
python3 -c 'import sys; sys.path.insert(0, "tools"); import vlib; vlib.build_harness()'
