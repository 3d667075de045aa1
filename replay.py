#!/usr/bin/env python3
"""replay.py FILE  -- re-executes the recorded schedule of a violation and prints its trace."""
import sys, os, json, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
import build as B
d = json.load(open(sys.argv[1]))
exe, sos = B.build([d['variant']])
with tempfile.NamedTemporaryFile('w', suffix='.txt') as f:
    f.write(' '.join(map(str, d['choices'])))
    f.flush()
    sys.exit(subprocess.run([exe, '--so', sos[d['variant']]] + d['args'] + ['--choices', f.name]).returncode)
