"""Runs inside a process of its own, with termfactory imported: one reference file, or one library session.

proc_gen.py ref <job.json>      job = {src, request, path}
proc_gen.py session <job.json>  job = {src, cmds, paths, result}
"""
import contextlib
import hashlib
import io
import json
import os
import random
import sys
sys.dont_write_bytecode = True

LONG = {'H': 'maximum_hamiltonian_rank', 'CC': 'maximum_coupled_cluster_rank', 'S': 's_taylor_max_order',
        'P': 'omega_max_order', 'T': 'maximum_T_rank', 'eT': 'eT_taylor_max_order'}
SHORT = {v: k for k, v in LONG.items()}
STALE = 'stale line of another program\n' * 20000
HEADED = '\\documentclass{article}\n\\usepackage{braket}\n\\begin{document}\nolder text of the user\n\\end{document}\n'
W_FN = {'w': ('code_w_equations', 'generate_w_operator_equations_file'),
        'dt': ('code_dt_equations', 'generate_dt_amplitude_equations_file'),
        'residual': ('code_residual_equations', 'generate_residual_equations_file'),
        'wtex': ('latex_w_equations', 'ground_state_w_equations_latex'),
        'thermal': ('latex_w_equations', 'excited_state_w_equations_latex')}
DEFAULT_PATH = {'w_operator_equations.py', 'dt_amplitude_equations.py', 'residual_equations.py',
                'ground_state_w_equations.tex', 'thermal_w_equations.tex'}
GEN_FN = {('fcc', 'tex'): ('latex_full_cc', 'generate_full_cc_latex'),
          ('fcc', 'py'): ('code_full_cc', 'generate_full_cc_python'),
          ('zhz', 'tex'): ('latex_zhz', 'generate_z_t_symmetric_latex'),
          ('eTz', 'tex'): ('latex_eT_zhz', 'generate_eT_z_t_symmetric_latex'),
          ('eTz', 'py'): ('code_eT_zhz', 'generate_eT_zhz_python')}
KEY_ORDER = ['H', 'CC', 'S', 'T', 'eT', 'P']


def fn_of(mod_fn):
    return getattr(__import__(mod_fn[0]), mod_fn[1])


def enum_dict(d):
    from truncation_keys import TruncationsKeys as tkeys
    return {tkeys(LONG[k]): d[k] for k in sorted(d, key=KEY_ORDER.index)}


def short_dict(d):
    """JSON value of a truncation dictionary with enum keys"""
    return {SHORT.get(getattr(k, 'value', k), str(k)): v for k, v in d.items()}


def generate(q, path, d=None):
    """the generator of the ansatz itself"""
    if 'fn' in q:
        args = [q['n']] + ([q['h']] if q['fn'] == 'residual' else [])
        if path in DEFAULT_PATH and path.startswith({'w': 'w_', 'dt': 'dt_', 'residual': 'res', 'wtex': 'gr', 'thermal': 'th'}[q['fn']]):
            return fn_of(W_FN[q['fn']])(*args)
        return fn_of(W_FN[q['fn']])(*args, path=path)
    key = (q['kind'], q['lang'])
    if key not in GEN_FN:
        raise NotImplementedError(key)
    ansatz = {'fcc': 'full cc', 'zhz': 'z_t ansatz', 'eTz': 'eT_z_t ansatz'}[q['kind']]
    return fn_of(GEN_FN[key])(enum_dict(q['d']) if d is None else d, only_ground_state=q['gs'],
                              remove_f_terms=q['rf'], lhs_rhs=q['side'], ansatz=ansatz, path=path)


def prepare(q, path):
    """the target file whose preamble a fragment keeps"""
    hdr = q.get('hdr')
    if not hdr:
        return
    if 'stale' in hdr:
        with open(path, 'w') as f:
            f.write(HEADED)
    else:
        prepare(hdr, path)
        generate(hdr, path)


def clear(path):
    """so that something else can take its place"""
    if os.path.isdir(path):
        os.rmdir(path)


def digest(path):
    if os.path.isdir(path):
        return 'blocked' if not os.listdir(path) else 'blocked, with files in it'
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def read_store(path):
    """contents of a truncation file, as the specification sees them"""
    if os.path.isdir(path):
        return {'k': 'dir', 'd': os.listdir(path)}
    if not os.path.isfile(path):
        return {'k': 'none', 'd': []}
    try:
        with open(path, encoding='utf8') as f:
            d = json.load(f)
        if not isinstance(d, dict):
            raise ValueError
        return {'k': 'dict', 'd': {SHORT.get(k, k): v for k, v in d.items()}}
    except (ValueError, UnicodeDecodeError):
        return {'k': 'junk', 'd': []}


def hand(path, content):
    """what a user does to a truncation file with an editor"""
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    clear(path)
    if content['k'] == 'dir':
        if os.path.isfile(path):
            os.remove(path)
        os.mkdir(path)
    elif content['k'] == 'none':
        if os.path.isfile(path):
            os.remove(path)
    elif content['k'] == 'junk':
        with open(path, 'w') as f:
            f.write('{"maximum_hamiltonian_rank": 1, "omega')
    else:
        with open(path, 'w', encoding='utf8') as f:
            json.dump({LONG.get(k, k): v for k, v in content['d'].items()}, f, indent=2)


def stale(c):
    """what is there before termfactory writes"""
    clear(c['name'])
    if c['op'] == 'block':
        if os.path.isfile(c['name']):
            os.remove(c['name'])
        os.mkdir(c['name'])
    else:
        with open(c['name'], 'w') as f:
            f.write(HEADED if c['headed'] else STALE)


def observe(paths):
    out = {}
    for f in sorted(os.listdir('.')):
        if f.endswith(('.py', '.tex')):
            out[f] = digest(f)
    return {'store': {p: read_store(p) for p in paths}, 'out': out}


class Refused(Exception):
    """with the dictionary of the caller as it is then"""


class NotThere(Exception):
    """an internal function goes by another name: nothing to observe here"""


class Session:
    """library calls in this process; the caller's dictionaries are kept and reused"""

    def __init__(self):
        self.dicts = {}

    def dict_of(self, d):
        k = json.dumps(d, sort_keys=True)
        if k not in self.dicts:     # in whichever order the caller happened to write it
            items = list(enum_dict(d).items())
            random.Random(k).shuffle(items)
            self.dicts[k] = dict(items)
        return self.dicts[k]

    def changed(self):
        return [k for k, v in self.dicts.items() if v != enum_dict(json.loads(k))]

    def run(self, c):
        op = c['op']
        if op == 'hand':
            hand(c['p'], c['content'])
        elif op in ('stale', 'block'):
            stale(c)
        elif op == 'gen':
            generate(c['q'], c['path'], self.dict_of(c['q']['d']))
        elif op == 'w':
            generate(c, c['path'])
        elif op == 'glue':
            import _glue_
            fn = _glue_._generate_latex if c['lang'] == 'tex' else _glue_._generate_python
            fn(self.dict_of(c['d']), **(c['opts'] or {}))
        elif op == 'save':
            from truncations import save_trunc_to_JSON
            os.makedirs(os.path.dirname(c['p']) or '.', exist_ok=True)
            save_trunc_to_JSON(c['p'], self.dict_of(c['d']))
        elif op == 'load':
            from truncations import load_trunc_from_JSON
            return short_dict(load_trunc_from_JSON(c['p']))
        elif op == 'loadinto':
            from truncations import load_trunc_from_JSON
            d = enum_dict(c['d'])
            try:
                load_trunc_from_JSON(c['p'], d)
            except Exception as e:
                raise Refused(short_dict(d)) from e
            return short_dict(d)
        elif op == 'verify':
            import truncations
            fn = {'fcc': '_verify_fcc_truncations', 'zhz': '_verify_zhz_truncations', 'eTz': '_verify_eT_z_t_truncations'}[c['kind']]
            if not hasattr(truncations, fn):
                raise NotThere(fn)
            getattr(truncations, fn)(self.dict_of(c['d']))
        else:
            raise SystemExit(f'unknown command {op}')
        return []


def session(job):
    s = Session()
    res = []
    for c in job['cmds']:
        ok, ret, msg = True, [], ''
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                ret = s.run(c)
        except NotThere as e:
            ok, msg = 'skipped', str(e)
        except Refused as e:
            ok, ret, msg = False, e.args[0], f'{type(e.__cause__).__name__}: {e.__cause__}'[:200]
        except Exception as e:
            ok, msg = False, f'{type(e).__name__}: {e}'[:200]
        res.append(dict(ok=ok, ret=ret, msg=msg, changed=s.changed(), **observe(job['paths'])))
    return res


def main():
    job = json.load(open(sys.argv[2]))
    sys.path.insert(0, job['src'])
    import logging
    logging.disable(logging.CRITICAL)
    if sys.argv[1] == 'ref':
        with contextlib.redirect_stdout(io.StringIO()):
            prepare(job['request'], job['path'])
            generate(job['request'], job['path'])
    else:
        r = session(job)
        with open(job['result'], 'w') as f:
            json.dump(r, f)


if __name__ == '__main__':
    main()
