#!/usr/bin/env python3
"""python run.py C01 [--tier quick|thorough]    or    python run.py --replay replays/C01-0.json"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc.core import main

if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
