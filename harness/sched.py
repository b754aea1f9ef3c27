"""sched.py JOB: runs driver.py and, just before its n-th access to a file of the session, lets another run of
driver.py happen from start to end.  JOB: {driver, root, at, a, b, result}"""
import json
import os
import runpy
import subprocess
import sys

with open(sys.argv[1]) as f:
    job = json.load(f)
state = {'n': 0, 'busy': False, 'b': None}
root = os.path.realpath(job['root']) + os.sep
EVENTS = {'open', 'os.rename', 'os.remove', 'os.truncate', 'os.link', 'os.symlink', 'shutil.copyfile', 'shutil.move'}


def other():
    state['busy'] = True
    try:
        state['b'] = subprocess.run([sys.executable, '-B', job['driver']] + job['b'], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                    stderr=subprocess.DEVNULL).returncode
    finally:
        state['busy'] = False


def hook(event, args):
    if event not in EVENTS or state['busy'] or state['b'] is not None:
        return
    for p in args[:1] if event == 'open' else args[:2]:
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if isinstance(p, (str, os.PathLike)) and os.path.realpath(p).startswith(root):
            state['n'] += 1
            if state['n'] == job['at']:
                other()
            return


def report(rc):
    late = state['b'] is None
    if late:
        other()
    state['busy'] = True
    with open(job['result'], 'w') as f:
        json.dump({'a': rc, 'b': state['b'], 'late': late}, f)


sys.argv = [job['driver']] + job['a']
sys.path[0] = os.path.dirname(job['driver'])
sys.addaudithook(hook)
rc = 1
try:
    runpy.run_path(job['driver'], run_name='__main__')
    rc = 0
except SystemExit as e:
    rc = 0 if e.code in (None, 0) else 1
except BaseException:
    rc = 1
report(rc)
