#!/usr/bin/env python3
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
from sx import runner
rc = runner.main()
sys.stdout.flush()
sys.exit(rc)
