#!/usr/bin/env python3
"""Builds the IR dumper; the checks rebuild it on demand when it is missing."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from wra import build
build.irdump_binary()
