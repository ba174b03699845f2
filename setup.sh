#!/bin/bash
# builds the IR extractor and the analysed modules
cd "$(dirname "$0")" && exec python3 - <<'P'
import sys
sys.path.insert(0, ".")
from vp import build
build.extractor()
P
