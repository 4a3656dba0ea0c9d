"""Builds the framework: Java overrides for TLC and the instrumented driver."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.build_java()
core.build_driver("asan")
