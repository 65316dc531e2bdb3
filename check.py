#!/usr/bin/env python3-vt
import sys, os
os.environ.setdefault('OMP_NUM_THREADS', '1'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import run
sys.stdout.reconfigure(line_buffering=True)
sys.exit(run.main(sys.argv[1:]))
