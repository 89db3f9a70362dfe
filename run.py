#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]: decide one property on /repo's current source"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    m = importlib.import_module('checks.' + pid.lower())
    sys.exit(m.check.main(sys.argv[2:]))


main()
