#!/usr/bin/env python3
"""Builds the harness, so that the first check does not have to."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build()
