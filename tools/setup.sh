#!/bin/bash
# builds the Java override of BigInt.tla; everything else is built by the checks from /repo's current tree
cd "$(dirname "$0")/.." && python3 -c "import sys; sys.path.insert(0,'tools'); import vlib; vlib.ensure_java()"
