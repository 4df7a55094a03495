#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]    exit 0 held, 1 violated (VIOLATION line), 2 the check itself failed
   check.py --replay <file>                       re-executes a recorded violation and judges it again"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import engine
sys.exit(engine.main(sys.argv[1:]))
