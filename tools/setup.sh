#!/bin/bash
# Nothing to compile: check that the interpreter, the code under test and the monitors load.
cd "$(dirname "$(realpath "$0")")/.." || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c '
import sys; sys.path.insert(0, "."); from lib import harness; import dfir_ntfs, sys; assert hasattr(sys, "monitoring"); print("ok", dfir_ntfs.__file__)'
