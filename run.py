#!/usr/bin/env python
"""check <property> | replay <file> | rt <property>"""
import os, sys
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from vf import cli
sys.exit(cli.main(sys.argv[1:]))
