"""Builds the driver and parses the specification once."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from oxlib import *
build()
for m in ('OxTrace', 'OxGen'):
    r = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', m + '.tla'], cwd=SPEC, capture_output=True, text=True)
    if r.returncode or 'Semantic errors' in r.stdout:
        sys.exit(r.stdout)
print('ready')
