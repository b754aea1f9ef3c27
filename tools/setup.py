"""parse every specification module once: the toolchain is there and the specifications are well formed"""
import glob
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
    p = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', f], cwd=os.path.join(V, 'spec'), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode or '*** Errors' in p.stdout or 'Fatal' in p.stdout:
        bad += 1
        print(f, p.stdout)
sys.exit(1 if bad else 0)
