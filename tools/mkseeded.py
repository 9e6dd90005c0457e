"""mkseeded.py ID DIFF PROPERTY NEEDS BREAKS [demo body file]: writes /verif/seeded/ID."""
import json, os, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
id, diff, prop, needs, what = sys.argv[1:6]
d = os.path.join(os.path.dirname(HERE), 'seeded', id)
os.makedirs(d, exist_ok=True)
shutil.copy(diff, os.path.join(d, 'patch.diff'))
for f in ('simlib.py', 'gen.py'): shutil.copy(os.path.join(HERE, f), d)
body = open(sys.argv[6]).read() if len(sys.argv) > 6 else sys.stdin.read()
with open(os.path.join(d, 'demo.py'), 'w') as f:
  f.write('import os, sys\nsys.dont_write_bytecode = True\nsys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.getcwd()]\n'
          'from simlib import *\nfrom gen import gen\n\n' + body)
with open(os.path.join(d, 'demo.sh'), 'w') as f:
  f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
