"""W operator, residual and dt-amplitude modules: generate, execute symbolically, validate."""
from core import *
import symexec as sx
from symexec import leaf, elec, Truncation, Ansatz, A_DIM as A, N_DIM as N

ANS = ['VECI', 'VE_MIXED', 'VECC']


def _gen_w(which, args):
    """(source text, exc)"""
    clean_cwd()
    m, f = {'w': ('code_w_equations', 'generate_w_operator_equations_file'),
            'residual': ('code_residual_equations', 'generate_residual_equations_file'),
            'dt': ('code_dt_equations', 'generate_dt_amplitude_equations_file')}[which]
    _, exc, msg = call(getattr(mod(m), f), *args, './generated_module.py')
    if exc:
        return None, exc
    try:
        with open('./generated_module.py') as fh:
            return fh.read(), ''
    except OSError:
        return None, 'NoOutput'


def _event(tab, key, res, exc, **kw):
    e = dict(key=key, exc=exc, present=False, terms=[], sym=0, axes=0)
    e.update(kw)
    if exc == '' and res is not None:
        if isinstance(res, sx.Tensor):
            e.update(present=True, terms=tab.table(res), sym=res.sym, axes=len(res.shape) - 2)
        else:
            e['exc'] = 'NotATensor'
    return e


def t_args():
    return tuple(leaf(f't:{k}:0', elec(k)) for k in range(1, 9))


def dt_args():
    return tuple(leaf(f'dt:{k}:0', elec(k)) for k in range(1, 9))


def w_args(have):
    return tuple(leaf(f'w:{k}:0', elec(k)) if k <= have else None for k in range(1, 9))


def trace_w(order, optimized):
    tab = sx.EinTable()
    src, exc = _gen_w('w', (order,))
    T = dict(kind='w', name=f'W max_order={order} {"optimized" if optimized else "default"}', hmax=0, events=[], required=[])
    ns = None
    if not exc:
        ns, exc, _ = call(sx.load, src)
    T['loaded'] = exc
    for n in range(1, order + 1):
        for ans in ANS:
            for level in range(1, 7):
                key = f'W_{n} {ans} level={level}'
                T['required'].append(key)
                kw = dict(n=n, ansatz=ans, level=level, what='one')
                if ns is None:
                    T['events'].append(_event(tab, key, None, exc, **kw))
                    continue
                tr, an = Truncation(cc=level), Ansatz(ans)

                def go():
                    if not optimized:
                        return ns[f'_calculate_order_{n}_w_operator'](A, N, t_args(), an, tr)
                    mx = ns['compute_optimized_vemx_paths'](A, N, tr)
                    cc = ns['compute_optimized_vecc_paths'](A, N, tr)
                    return ns[f'_calculate_order_{n}_w_operator_optimized'](A, N, t_args(), an, tr, mx[n - 1], cc[n - 1])
                r, x, _ = call(go)
                T['events'].append(_event(tab, key, r, x, **kw))
    if order == 6:   # the function which builds all the operators a truncation needs
        for ans in ANS:
            for level in range(0, 7):
                def go_all():
                    tr, an = Truncation(cc=level), Ansatz(ans)
                    if not optimized:
                        return ns['compute_w_operators'](A, N, t_args(), an, tr)
                    return ns['compute_w_operators_optimized'](
                        A, N, t_args(), an, tr, ns['compute_optimized_vemx_paths'](A, N, tr),
                        ns['compute_optimized_vecc_paths'](A, N, tr))
                if ns is None:
                    r, x = None, exc
                else:
                    r, x, _ = call(go_all)
                for n in range(1, 7):
                    key = f'compute_w_operators {ans} level={level} w_{n}'
                    T['required'].append(key)
                    rn = r[n - 1] if (x == '' and isinstance(r, tuple) and len(r) == 6) else None
                    xx = x or ('' if isinstance(r, tuple) and len(r) == 6 else 'BadReturn')
                    T['events'].append(_event(tab, key, rn, xx, n=n, ansatz=ans, level=level, what='all'))
    return T, tab.rows


H_NAMES = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)]   # order in which h_args is unpacked


def trace_residual(order, hmax):
    tab = sx.EinTable()
    src, exc = _gen_w('residual', (order, hmax))
    T = dict(kind='residual', name=f'residual max_order={order} h_rank={hmax}', hmax=hmax, events=[], required=[])
    ns = None
    if not exc:
        ns, exc, _ = call(sx.load, src)
    for p in range(0, order + 1):
        for ws in range(1, 9):
            for quad in (True, False):
                for level in sorted({max(p, 1), max(p - 1, 0), 6}):
                    key = f'R_{p} w_available={ws} quadratic={quad} level={level}'
                    T['required'].append(key)
                    kw = dict(n=p, ws=ws, quadratic=quad, level=level, what='one')
                    if ns is None:
                        T['events'].append(_event(tab, key, None, exc, **kw))
                        continue
                    tr = Truncation(cc=level, h=2 if quad else 1)
                    h = tuple(leaf(f'h:{m}:{n}', elec(m + n)) for m, n in H_NAMES)
                    r, x, _ = call(lambda: ns[f'calculate_order_{p}_residual'](A, N, tr, h, w_args(ws)))
                    T['events'].append(_event(tab, key, r, x, **kw))
    return T, tab.rows


class _Residuals:
    """stands in for the residual module: residual p is an opaque tensor"""

    def __getattr__(self, name):
        m = re.fullmatch(r'calculate_order_(\d+)_residual', name)
        if not m:
            raise AttributeError(name)
        p = int(m.group(1))

        def residual(a, n, truncation, h_args, w):
            if (a, n) != (A, N) or h_args != 'h_args' or not isinstance(w, tuple):
                raise sx.Malformed('residual called with wrong arguments')
            return leaf(f'res:{p}:0', elec(p)).copy()
        return residual


TAGS = sx.CC_TAGS


def trace_dt(order, optimized):
    tab = sx.EinTable()
    src, exc = _gen_w('dt', (order,))
    T = dict(kind='dt', name=f'dt max_order={order} {"optimized" if optimized else "default"}', hmax=0, events=[], required=[])
    ns = None
    if not exc:
        ns, exc, _ = call(sx.load, src, 'generated', {'residual_equations': _Residuals()})
    eps = leaf('eps:0:0', (A, A))
    for n in range(1, order + 1):
        for ans in ANS:
            for level in range(0, 7):
                for what in ('solve',):
                    key = f'dt_{n} {ans} level={level} {what}'
                    T['required'].append(key)
                    kw = dict(n=n, ansatz=ans, level=level, what=what)
                    if ns is None:
                        T['events'].append(_event(tab, key, None, exc, **kw))
                        continue
                    tr, an = Truncation(cc=level), Ansatz(ans)

                    def go():
                        args = (A, N, an, tr, eps, 'h_args', t_args(), dt_args(), w_args(8))
                        if optimized:
                            return ns[f'solve_{TAGS[n - 1]}_equations_optimized'](*args, ns['compute_optimized_paths'](A, N, tr))
                        return ns[f'solve_{TAGS[n - 1]}_equations'](*args)
                    r, x, _ = call(go)
                    T['events'].append(_event(tab, key, r, x, **kw))
    return T, tab.rows


def merge(parts):
    """[(trace, einsum rows)] -> shard; einsum indices are made global, per kind"""
    idx, rows, traces = {}, [], []
    for T, rs in parts:
        loc = {}
        for i, r in enumerate(rs, 1):
            r = dict(r, kind=T['kind'])
            k = canon(r)
            if k not in idx:
                rows.append(r)
                idx[k] = len(rows)
            loc[i] = idx[k]
        for e in T['events']:
            e['terms'] = [[loc[t[0]], t[1], t[2]] for t in e['terms']]
        traces.append(T)
    return {'einsums': rows, 'traces': traces}


def describe(sh, t, e, cl):
    key = f"{t['name']}|{e['key'] if e else 'end'}|{cl['c']}|{canon(cl['d'])}"
    return key, {'run': t['name'], 'equation': e['key'] if e else None, 'clause': cl['c'], 'detail': cl['d']}


def check(c, jobs):
    res = pmap(lambda_call, jobs)
    parts = []
    for st, v in res:
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'generator did not finish or wrote something unreadable')
        else:
            parts.append(v)
    groups = balance(parts, lambda p: 1 + sum(len(e['terms']) for e in p[0]['events']))
    validate(c, 'TraceW.tla', [merge(g) for g in groups], describe)
    for p in parts:
        c.count(equations=len(p[0]['events']), terms=sum(len(e['terms']) for e in p[0]['events']))
        for e in p[0]['events'][-1:]:
            c.sample({'run': p[0]['name'], 'equation': e['key'], 'terms': len(e['terms'])})


def lambda_call(fname, *args):
    return globals()[fname](*args)
