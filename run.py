#!/opt/venv/bin/python
"""run.py <PROPERTY> [quick|thorough] [--replay FILE] [--jobs N]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc.core import main
sys.exit(main(sys.argv))
