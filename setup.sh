#!/bin/bash
# Unpack the offline Hypothesis wheel next to the checks (git-ignored).
cd "$(dirname "$0")" && exec ./check.py --help > /dev/null
