#!/usr/bin/env python3
"""replay.py FILE: re-runs a reported counterexample against the real code of /repo."""
import json
import os
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.abspath(__file__))
it = json.load(open(sys.argv[1]))
with tempfile.TemporaryDirectory() as d:
    json.dump([it], open(d + '/i', 'w'))
    subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-B', V + '/symx/run.py', 'real', it['property'], d + '/i', d + '/o'], check=True, env=dict(os.environ, MALLOC_PERTURB_='165'))
    print(json.dumps(json.load(open(d + '/o'))[0], indent=1))
