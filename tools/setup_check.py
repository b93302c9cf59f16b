#!/usr/bin/env python3
"""Nothing is prebuilt: checks the tools are here and parses the specifications."""
import sys, subprocess, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import SPEC, JAVA
bad = 0
for m in sorted(f for f in os.listdir(SPEC) if f.endswith('.tla')):
    p = subprocess.run(JAVA[:-1] + ['tla2sany.SANY', m], cwd=SPEC, capture_output=True, text=True)
    if p.returncode or 'rror' in p.stdout:
        print(m, p.stdout[-500:]); bad = 1
subprocess.run(['g++', '--version'], check=True, stdout=subprocess.DEVNULL)
sys.exit(bad)
