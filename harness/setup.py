"""checks that the tools are there and that the specification parses"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tlc

bad = 0
for f in sorted(os.listdir(tlc.SPEC)):
    if not f.endswith('.tla'):
        continue
    p = subprocess.run(['java', '-cp', tlc.JAR, 'tla2sany.SANY', f], cwd=tlc.SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and '*** Errors' not in p.stdout
    print(f, 'parses' if ok else 'DOES NOT PARSE\n' + p.stdout[-1500:])
    bad += not ok
os.makedirs(os.path.join(os.path.dirname(HERE), 'evidence'), exist_ok=True)
sys.exit(1 if bad else 0)
