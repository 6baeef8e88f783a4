#!/bin/bash
# development helper: check.py with verbose output
cd "$(dirname "$0")"; VP_VERBOSE=1 exec python3 check.py "$@"
