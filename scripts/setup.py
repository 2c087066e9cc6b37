#!/usr/bin/env python3
"""Setup: nothing is compiled; checks that the toolchain the checks need is there (every spec module parses)."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
import common
bad = 0
for m in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
    p = subprocess.run(['java', '-cp', common.tla_classpath(), 'tla2sany.SANY', m], capture_output=True, text=True, cwd=os.path.join(V, 'spec'))
    if p.returncode or '*** Errors' in p.stdout or 'Fatal' in p.stdout:
        print('cannot parse', m, p.stdout[-800:])
        bad = 1
print('setup ok' if not bad else 'setup failed')
sys.exit(bad)
