"""Shared machinery: scratch space, running the real generators, running TLC, verdicts, evidence."""
import atexit
import contextlib
import importlib
import io
import json
import logging
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TERMFACTORY_REPO', '/repo')
SRC = os.path.join(REPO, 'termfactory')
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)
JOB_TIMEOUT = 400

sys.dont_write_bytecode = True

_scratch = None


def scratch(*parts):
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='termfactory_verif_')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    p = os.path.join(_scratch, *parts)
    return p


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ running the real code
def _enter_worker(base):
    d = tempfile.mkdtemp(dir=base)
    os.chdir(d)
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


class JobTimeout(Exception):
    pass


def _alarm(*a):
    raise JobTimeout()


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def call(fn, *a, **k):
    """(result, exception name, message) of a call into the code under test; it runs quietly"""
    try:
        with quiet():
            return fn(*a, **k), '', ''
    except JobTimeout:
        raise
    except (Exception, SystemExit) as e:
        return None, type(e).__name__, str(e)[:300]


def _run_job(job):
    fn, args = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_TIMEOUT)
    try:
        return ('ok', fn(*args))
    except JobTimeout:
        return ('timeout', repr(args))
    except Exception:
        return ('error', traceback.format_exc() + f'\nargs={args!r}')
    finally:
        signal.alarm(0)


def pmap(fn, arglist):
    """run fn(*args) for each args in fresh worker processes whose cwd is scratch"""
    arglist = list(arglist)
    base = scratch('work')
    os.makedirs(base, exist_ok=True)
    ctx = mp.get_context('fork')
    with ctx.Pool(NPROC, initializer=_enter_worker, initargs=(base,)) as pool:
        res = pool.map(_run_job, [(fn, a) for a in arglist], chunksize=1)
    out = []
    for (st, v), a in zip(res, arglist):
        if st == 'error':     # the output of the generator does not even have the form that can be read
            st, v = 'timeout', v[-1500:]
        out.append((st, v))
    return out


def clean_cwd():
    if 'termfactory_verif_' not in os.getcwd():
        raise MachineryError('not in a scratch directory')
    for f in os.listdir('.'):
        if not f.endswith('.txt'):
            if os.path.isdir(f):
                shutil.rmtree(f)
            else:
                os.remove(f)


def written_files():
    return sorted(f for f in os.listdir('.') if os.path.isfile(f) and not f.endswith('.txt'))


def mod(name):
    """import one of termfactory's modules (bare name, as the programs do)"""
    with quiet():
        return importlib.import_module(name)


ANSATZ = {'fcc': 'full cc', 'zhz': 'z_t ansatz', 'eTz': 'eT_z_t ansatz'}


def trunc_dict(kind, values):
    tk = mod('truncation_keys').TruncationsKeys
    keys = {'fcc': tk.fcc_key_list, 'zhz': tk.zhz_key_list, 'eTz': tk.eTz_key_list}[kind]()
    return dict(zip(keys, values))


def generate(kind, lang, values, gs=True, rf=False, side='RHS'):
    """run one of the three ansatz generators through the library entry point; (text, exc, msg)"""
    glue = mod('_glue_')
    clean_cwd()
    fn = glue._generate_latex if lang == 'tex' else glue._generate_python
    _, exc, msg = call(fn, trunc_dict(kind, values), ansatz=ANSATZ[kind], only_ground_state=gs,
                       remove_f_terms=rf, lhs_rhs=side)
    files = written_files()
    text = None
    if exc == '':
        if len(files) != 1:
            return None, 'NoOutput', f'files written: {files}'
        with open(files[0], encoding='utf8') as f:
            text = f.read()
    clean_cwd()
    return text, exc, msg


# ------------------------------------------------------------------ TLC
_STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.rejects = []      # (shard, trace index, event index, clauses)
        self.broken = []       # (shard, message): TLC could not evaluate the shard
        self.prints = []


def tlc(module, cfg, env=None, workers=1, heap='3g', extra=(), timeout=3000, name=None):
    meta = tempfile.mkdtemp(dir=scratch_dir('tlc'))
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={meta}', '-XX:+UseParallelGC', f'-XX:ParallelGCThreads={2 if workers == 1 else 4}',
           '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module)]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def scratch_dir(*parts):
    d = scratch(*parts)
    os.makedirs(d, exist_ok=True)
    return d


def printed(out, tag):
    """payloads of PrintT("<tag> <json>") lines"""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + ' '):
            s = json.loads(line)
            res.append(json.loads(s[len(tag) + 1:]))
    return res


def run_trace_shards(module, shards, cfg='Trace.cfg', heap='3g', timeout=3000):
    """shards: list of JSON-able objects with 'traces'.  Each shard is validated by its own TLC."""
    res = TlcResult()
    files = []
    for i, sh in enumerate(shards):
        f = scratch(f'shard_{module}_{i}_{time.monotonic_ns()}.json')
        with open(f, 'w') as fh:
            json.dump(sh, fh)
        files.append(f)

    def one(i):
        return tlc(module, cfg, env={'TRACE_FILE': files[i]}, heap=heap, timeout=timeout)

    with ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(one, range(len(shards))))
    for i, (rc, out) in enumerate(outs):
        if 'OutOfMemory' in out or 'Java heap space' in out or 'could not reserve' in out.lower():
            raise MachineryError('TLC ran out of memory\n' + out[-3000:])
        m = _STATES.search(out)
        if rc not in (0, 10, 75, 76) or (rc == 0 and not m):
            raise MachineryError(f'TLC ended with {rc}\n' + out[-3000:])
        if rc != 0:
            # which trace could not be evaluated is found by the caller, one trace at a time
            res.broken.append((i, out[-4000:]))
            continue
        want = sum(len(t['events']) + 2 for t in shards[i]['traces'])
        if int(m.group(2)) != want:
            raise MachineryError(f'TLC consumed {m.group(2)} states, {want} expected\n' + out[-3000:])
        res.states += int(m.group(1))
        res.distinct += int(m.group(2))
        for r in printed(out, 'REJECT'):
            cls = r['cl']
            res.rejects.append((i, r['tr'] - 1, r['ev'] - 1, cls))
    for f in files:
        os.remove(f)
    return res


def balance(items, weight, n=NPROC):
    """split items into n groups of similar total weight"""
    groups = [[0, []] for _ in range(min(n, max(1, len(items))))]
    for it in sorted(items, key=weight, reverse=True):
        g = min(groups, key=lambda x: x[0])
        g[0] += weight(it)
        g[1].append(it)
    return [g[1] for g in groups if g[1]]


# ------------------------------------------------------------------ verdicts
def canon(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))


class Check:
    """collects what one check explored and found, and ends the process the way the task asks"""

    def __init__(self, prop, tier, level='model_checking'):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.extra = {}
        self.assumptions = []
        self.items = []     # violations: (key, description)
        kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
        self.known = {}
        for f in kf['known']:
            if prop in f['properties']:
                for k in findings_keys(f, prop):
                    self.known[k] = f['id'] + ': ' + f['what']

    def count(self, **kw):
        for k, v in kw.items():
            if k in self.cov:
                self.cov[k] += v
            else:
                self.extra[k] = self.extra.get(k, 0) + v

    def sample(self, s):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(s)

    def violation(self, key, desc):
        """key: canonical string identifying what fails (input + equation + clause)"""
        self.items.append((key, desc))

    def finish(self):
        new, seen = [], {}
        for k, d in self.items:
            if k in self.known:
                seen.setdefault(self.known[k], []).append(k)
            else:
                new.append((k, d))
        for what in sorted(seen):
            print(f'KNOWN-FINDING: property={self.prop} {what} [{len(seen[what])} instances]')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.cov)
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'assumptions': self.assumptions,
              'violations': len(new), 'known_findings': {w: len(v) for w, v in seen.items()}}
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if os.environ.get('VERIF_DUMP_KEYS'):
            with open(os.environ['VERIF_DUMP_KEYS'], 'w') as f:
                json.dump([[k, d] for k, d in self.items], f, indent=1)
        if new:
            path = os.path.join(VERIF, 'evidence', f'replay_{self.prop}.json')
            with open(path, 'w') as f:
                json.dump([{'key': k, 'what': d} for k, d in new[:200]], f, indent=1)
            for k, d in new[:5]:
                print('  ' + k[:300])
            print(f'{len(new)} violations')
            print(f'VIOLATION property={self.prop} replay={path}')
            sys.exit(1)
        print(f'OK property={self.prop} ' + ' '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, int)))
        sys.exit(0)


def findings_keys(f, prop):
    ks = f.get('keys', [])
    if isinstance(ks, dict):
        ks = ks.get(prop, [])
    if 'keys_file' in f:
        d = json.load(open(os.path.join(VERIF, f['keys_file'])))
        ks = list(ks) + list(d.get(prop, []))
    return ks


def validate(check, module, shards, describe, heap='3g', timeout=3000):
    """validate shards; describe(shard, trace, event or None, clause) -> (key, description)"""
    res = run_trace_shards(module, shards, heap=heap, timeout=timeout)
    check.count(states=res.distinct, transitions=res.distinct - sum(len(s['traces']) for s in shards),
                traces_validated_against_impl=sum(len(s['traces']) for s in shards))
    for si, ti, ei, cls in res.rejects:
        sh = shards[si]
        t = sh['traces'][ti]
        e = t['events'][ei] if ei >= 0 else None
        for cl in cls:
            check.violation(*describe(sh, t, e, cl))
    for si, msg in res.broken:
        # the specification cannot give the recorded values a meaning at all
        check.violation(f'{module}|not evaluable|{si}', msg)
    return res


def run_model(check, module, cfg, workers=NPROC, heap='8g', timeout=1500, min_states=2):
    """exhaustive design model; a violated invariant of the design is a machinery error, not a finding"""
    rc, out = tlc(module, cfg, workers=workers, heap=heap, timeout=timeout)
    m = _STATES.search(out)
    if rc != 0 or not m or int(m.group(2)) < min_states:
        raise MachineryError(f'design model {module}/{cfg} failed\n' + out[-4000:])
    check.count(states=int(m.group(2)), transitions=int(m.group(1)))
    check.extra[f'model_{os.path.basename(cfg)[:-4]}_states'] = int(m.group(2))
    return out
