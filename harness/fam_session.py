"""Sessions: behaviours generated by TLC from spec/GenSession.tla are replayed in the real program.

CLI commands are runs of driver.py in processes of their own; library commands are calls in one
long-lived process.  After every command the truncation files and equation files are compared with
the state of the specification.  An equations file holds a request when it is identical to what the
generator of that ansatz writes for that request in a fresh process."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

import core
import proc_gen

PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
HERE = os.path.dirname(os.path.abspath(__file__))
PATHS = ['../truncs.json', 'trunc_a.json', 'sub/trunc_b.json']
TIMEOUT = 300


def behaviours(check, mode, depth, sample, num=0, seed=1):
    """behaviours of the specification; exhaustive when num = 0"""
    cfg = core.scratch(f'gen_{mode}_{depth}.cfg')
    with open(os.path.join(core.SPEC, 'GenSession.cfg')) as f:
        base = f.read()
    with open(cfg, 'w') as f:
        f.write(base + f'CONSTANTS Mode = "{mode}" Depth = {depth} Sample = {sample}\n')
    extra = ('-simulate', f'num={num}', '-depth', str(depth + 3), '-seed', str(seed)) if num else ()
    rc, out = core.tlc('GenSession.tla', cfg, workers=1, heap='6g', extra=extra, timeout=800)
    res = core.printed(out, 'BEHAVIOUR')
    if rc != 0 or not res or (num and len(res) < num):
        raise core.MachineryError(f'GenSession {mode} ended with {rc}\n' + out[-2000:])
    check.count(states=sum(len(b) + 1 for b in res), transitions=sum(len(b) for b in res))
    check.extra[f'behaviours_{mode}'] = len(res)
    return res


def env_for(n):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e['PYTHONHASHSEED'] = str(n)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    return e


# ---------------------------------------------------------------- references
def rkey(q):
    return core.canon(q)


def reference(q):
    d = tempfile.mkdtemp(dir=core.scratch_dir('ref'))
    job = os.path.join(d, 'job.json')
    path = os.path.join(d, 'equations')
    with open(job, 'w') as f:
        json.dump({'src': core.SRC, 'request': q, 'path': path}, f)
    try:
        p = subprocess.run([PY, '-B', os.path.join(HERE, 'proc_gen.py'), 'ref', job], cwd=d, env=env_for(0),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=TIMEOUT)
        if p.returncode == 0 and os.path.isfile(path):
            return proc_gen.digest(path), ''
        return None, p.stderr[-300:]
    except subprocess.TimeoutExpired:
        return None, 'did not finish'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def references(behs):
    qs = {}
    for b in behs:
        for s in b:
            for f in (s['out'] or {}).values():
                if f['k'] == 'equations':
                    qs[rkey(f['q'])] = f['q']
    with ThreadPoolExecutor(core.NPROC) as ex:
        return dict(zip(qs, ex.map(reference, qs.values()))), qs


# ---------------------------------------------------------------- replay
def cli_args(c):
    a = []
    if c['t']:
        a += ['-t'] + [str(x) for x in c['t']]
    if c['p']:
        a += ['-p', c['p']]
    if c['a']:
        a += ['-a', c['a']]
    if c['es']:
        a += ['-es']
    if c['rf'] != '':
        a += ['-rf', c['rf']]
    if c['c']:
        a += ['-c']
    if c['lhs']:
        a += ['-lhs']
    if c['log'] == '-s':
        a += ['-s']
    elif c['log'] == '-l':
        a += ['-l', 'named_log.txt']
    return a


def replay_cli(job):
    """one session in a directory of its own; every driver.py run is a fresh process"""
    i, beh, seed = job
    root = tempfile.mkdtemp(dir=core.scratch_dir('cli'))
    run = os.path.join(root, 'run')
    os.mkdir(run)
    here = os.path.join(root, 'j')
    os.mkdir(here)
    rnd = random.Random(seed * 1000 + i)
    res = []
    for s in beh:
        c = s['cmd']
        r = {'ok': True, 'ret': [], 'msg': '', 'changed': [], 'logs': None}
        if c['op'] == 'cli':
            for f in os.listdir(run):
                if f.endswith('.txt'):
                    os.remove(os.path.join(run, f))
            try:
                p = subprocess.run([PY, '-B', os.path.join(core.SRC, 'driver.py')] + cli_args(c), cwd=run, env=env_for(rnd.randint(1, 10**6)),
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=TIMEOUT)
                r['ok'] = p.returncode == 0
                r['msg'] = '' if r['ok'] else p.stderr[-200:]
            except subprocess.TimeoutExpired:
                r['ok'], r['msg'] = None, 'did not finish'
            r['logs'] = sorted(f for f in os.listdir(run) if f.endswith('.txt'))
        elif c['op'] == 'overlap':
            j, resf = os.path.join(here, 'job.json'), os.path.join(here, 'res.json')
            with open(j, 'w') as f:
                json.dump({'driver': os.path.join(core.SRC, 'driver.py'), 'root': root, 'at': c['at'], 'a': cli_args(c['a']),
                           'b': cli_args(c['b']), 'result': resf}, f)
            try:
                p = subprocess.run([PY, '-B', os.path.join(HERE, 'sched.py'), j], cwd=run, env=env_for(rnd.randint(1, 10**6)),
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=TIMEOUT)
                if p.returncode != 0:
                    raise core.MachineryError('overlapping runs: ' + p.stderr[-2000:])
                with open(resf) as f:
                    x = json.load(f)
                r['ok'], r['late'] = x['a'] == 0 and x['b'] == 0, x['late']
                r['msg'] = '' if r['ok'] else p.stderr[-200:]
            except subprocess.TimeoutExpired:
                r['ok'], r['msg'] = None, 'did not finish'
        elif c['op'] == 'save':
            j = os.path.join(here, 'job.json')
            with open(j, 'w') as f:
                json.dump({'src': core.SRC, 'cmds': [c], 'paths': [], 'result': os.path.join(here, 'res.json')}, f)
            subprocess.run([PY, '-B', os.path.join(HERE, 'proc_gen.py'), 'session', j], cwd=run, env=env_for(1),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=TIMEOUT)
            with open(os.path.join(here, 'res.json')) as f:
                r['ok'] = json.load(f)[0]['ok']
        else:
            old = os.getcwd()
            if c['op'] == 'hand':
                proc_gen.hand(os.path.join(run, c['p']), c['content'])
            else:
                proc_gen.stale(dict(c, name=os.path.join(run, c['name'])))
            assert old == os.getcwd()
        out = {f: proc_gen.digest(os.path.join(run, f)) for f in os.listdir(run) if f.endswith(('.py', '.tex'))}
        r.update(out=out, store={p: proc_gen.read_store(os.path.join(run, p)) for p in PATHS})
        r['stray'] = sorted(set(os.listdir(root)) - {'run', 'j', 'truncs.json'})
        res.append(r)
    shutil.rmtree(root, ignore_errors=True)
    return res


def replay_lib(job):
    i, beh, seed = job
    root = tempfile.mkdtemp(dir=core.scratch_dir('lib'))
    run = os.path.join(root, 'run')
    os.mkdir(run)
    j, resf = os.path.join(root, 'job.json'), os.path.join(root, 'res.json')
    with open(j, 'w') as f:
        json.dump({'src': core.SRC, 'cmds': [s['cmd'] for s in beh], 'paths': PATHS, 'result': resf}, f)
    try:
        p = subprocess.run([PY, '-B', os.path.join(HERE, 'proc_gen.py'), 'session', j], cwd=run, env=env_for(seed * 977 + i + 1),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=TIMEOUT * 2)
        if p.returncode != 0:
            raise core.MachineryError('session process: ' + p.stderr[-2000:])
        with open(resf) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        return [{'ok': None, 'ret': [], 'msg': 'did not finish', 'changed': [], 'out': {}, 'store': {}}]
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---------------------------------------------------------------- comparison
OTHER = {k: __import__('hashlib').sha256(v.encode()).hexdigest() for k, v in (('stale', proc_gen.STALE), ('headed', proc_gen.HEADED))}
OTHER['blocked'] = 'blocked'


def d_of(x):
    return x if isinstance(x, dict) else {}


def compare(exp, got, refs):
    """clauses of the expected outcome which the observed one breaks"""
    bad = []
    if got['ok'] is None:
        return ['did not finish']
    if got['ok'] == 'skipped':
        return []
    if exp['ok'] and not got['ok']:
        return ['refused although it is supported: ' + got['msg'].strip().splitlines()[-1][:120] if got['msg'].strip() else 'failed']
    if got['ok'] and not exp['ok']:
        bad.append('accepted although it has to be refused')
    if (exp['ok'] or exp['cmd']['op'] == 'loadinto') and d_of(exp['ret']) != d_of(got['ret']):
        bad.append(f'returned {got["ret"]} instead of {exp["ret"]}')
    if got['changed']:
        bad.append(f'the dictionary of the caller was changed: {got["changed"][:2]}')
    for p, e in exp['store'].items():
        g = got['store'].get(p)
        if e['k'] == 'unspecified':
            continue
        if g['k'] != e['k'] or d_of(g['d']) != d_of(e['d']):
            bad.append(f'{p} holds {g} instead of {e}')
    eo = exp['out'] or {}
    for f in sorted(set(eo) | set(got['out'])):
        if f not in eo:
            bad.append(f'unexpected file {f}')
        elif f not in got['out']:
            bad.append(f'no file {f}')
        else:
            want = OTHER[eo[f]['k']] if eo[f]['k'] in OTHER else refs[rkey(eo[f]['q'])][0]
            if want is None:
                bad.append(f'{f}: the generator called directly fails: ' + refs[rkey(eo[f]['q'])][1][-120:])
            elif want != got['out'][f]:
                bad.append(f'{f} does not hold the equations which were requested')
    if got.get('stray'):
        bad.append(f'files outside the working directory: {got["stray"]}')
    if got.get('logs') is not None and exp['ok']:
        log = exp['cmd']['log']
        if log == '-l' and got['logs'] != ['named_log.txt']:
            bad.append(f'-l named_log.txt wrote {got["logs"]}')
        if log == '-s' and got['logs']:
            bad.append(f'-s wrote {got["logs"]}')
    return bad


def describe(c):
    if c['op'] == 'cli':
        return 'driver.py ' + ' '.join(cli_args(c))
    if c['op'] == 'overlap':
        return f"{describe(c['a'])}, and before file access {c['at']} of it {describe(c['b'])}"
    return core.canon(c)


def run(check, mode, depth, sample, num, replay):
    behs = behaviours(check, mode, depth, sample, num, check.seed)
    refs, qs = references(behs)
    with ThreadPoolExecutor(core.NPROC) as ex:
        obs = list(ex.map(replay, [(i, b, check.seed) for i, b in enumerate(behs)]))
    check.count(traces_validated_against_impl=len(behs), commands_replayed=sum(len(o) for o in obs), references=len(refs))
    for b, o in zip(behs, obs):
        for k, (e, g) in enumerate(zip(b, o)):
            bad = compare(e, g, refs)
            if bad:
                hist = [describe(s['cmd']) for s in b[:k + 1]]
                for x in bad:
                    check.violation(f'session {mode}|{describe(e["cmd"])}|{x}', {'history': hist, 'what': x})
                break       # the states differ from here on
        if b and not o:
            check.violation(f'session {mode}|nothing observed', '')
    late = [g for o in obs for g in o if g.get('late') is not None]
    if late:
        check.extra['overlapping_runs'] = len(late)
        check.extra['second_run_within_first'] = sum(not g['late'] for g in late)
    if behs:
        check.sample({'mode': mode, 'commands': [describe(s['cmd']) for s in behs[0]]})


def batched(check, mode, depth, num, replay, size=25):
    """behaviours of one step each, replayed `size` to a process"""
    behs = behaviours(check, mode, depth, 0, num, check.seed)
    groups = [sum(behs[i:i + size], []) for i in range(0, len(behs), size)]
    with ThreadPoolExecutor(core.NPROC) as ex:
        obs = list(ex.map(replay, [(i, b, check.seed) for i, b in enumerate(groups)]))
    check.count(traces_validated_against_impl=len(behs), commands_replayed=sum(len(o) for o in obs))
    for b, o in zip(groups, obs):
        for e, g in zip(b, o):
            for x in compare(e, g, {}):
                check.violation(f'session {mode}|{describe(e["cmd"])}|{x}', {'what': x})


def design(check, tier):
    cfg = 'Design.cfg'
    if tier == 'thorough':
        cfg = core.scratch('DesignDeep.cfg')
        with open(os.path.join(core.SPEC, 'Design.cfg')) as f:
            s = f.read()
        with open(cfg, 'w') as f:
            f.write(s.replace('Depth = 2', 'Depth = 3'))
    core.run_model(check, 'GenSession.tla', cfg)


def check_cli(check, tier):
    design(check, tier)
    run(check, 'cli' if tier == 'quick' else 'cli_all', 1, 0, 0, replay_cli)
    run(check, 'cli_grid', *((1, 1, 150) if tier == 'quick' else (1, 1, 3000)), replay_cli)
    run(check, 'cli_path', 3, 0, 0, replay_cli)
    run(check, 'cli_refused', 2, 0, 0, replay_cli)
    run(check, 'cli_blocked', 2, 0, 0, replay_cli)
    run(check, 'cli_overlap', 2, 0, 0, replay_cli)
    run(check, 'cli_session', *((10, 1, 30) if tier == 'quick' else (16, 2, 400)), replay_cli)


def check_trunc(check, tier):
    batched(check, 'trunc', 1, 0, replay_lib)
    batched(check, 'trunc_file', 2, 0, replay_lib)
    run(check, 'trunc_session', *((30, 1, 60) if tier == 'quick' else (40, 1, 800)), replay_lib)


def check_history(check, tier):
    run(check, 'lib_grid', *((60, 1, 40) if tier == 'quick' else (150, 1, 300)), replay_lib)
    run(check, 'lib_pairs', 2, 0, 0, replay_lib)
    run(check, 'lib_ranks', 2, 0, 0, replay_lib)
    run(check, 'lib_session', *((14, 1, 40) if tier == 'quick' else (30, 2, 500)), replay_lib)
