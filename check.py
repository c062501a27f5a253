#!/usr/bin/env python3
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from sa.report import main
from sa.checks.registry import CHECKS
if __name__ == '__main__':
    sys.exit(main(CHECKS))
