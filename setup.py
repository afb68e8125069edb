#!/usr/bin/env python3
"""Builds the exporter and checks that /repo exports."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import build
print(build.driver())
print(build.export(os.environ.get('VERIF_REPO', '/repo')))
