"""full CC Python modules: generate, execute symbolically, validate."""
import random
from core import *
import fcc_cost
import symexec as sx
from symexec import Truncation, Ansatz, Args, A_DIM as A, N_DIM as N

CLASSES = ['fully_connected', 'linked_disconnected', 'unlinked_disconnected']


def _args():
    return Args('h', 2), Args('t', 2)


def _zero(om):
    return sx.Tensor((A, A) + (N,) * sum(om))


def _run_add(ns, name, om, trunc, extra=(), ground=True):
    R = _zero(om)
    h, t = _args()
    _, exc, msg = call(ns[name] if name in ns else _missing(name), R, Ansatz(ground=ground), trunc, h, t, *extra)
    return R, exc, msg


def _missing(name):
    def f(*a):
        raise NameError(name)
    return f


def job(H, CC, S, P, what, grid, seed, gs=True, rf=False, side='RHS'):
    """one generator run -> (trace, einsum rows, equations)"""
    src, exc, msg = generate('fcc', 'py', (H, CC, S, P), gs=gs, rf=rf, side=side)
    T = dict(name=f'full cc python H={H} CC={CC} S={S} P={P} gs={gs} rf={rf} {side}', H=H, CC=CC, S=S, P=P, classes=[], events=[])
    tab = sx.EinTable(h_symmetric=True)
    eqs = []
    ns = {}
    if not exc:
        ns, exc, msg = call(sx.load, src)
        ns = ns or {}
    # which projections the module offers is read off the module itself
    oms = set()
    for k in ns:
        m = re.fullmatch(r'(?:add|compute)_m(\d+)_n(\d+)_.*', k)
        if m:
            oms.add((int(m.group(1)), int(m.group(2))))
    oms |= {(m, n) for m in range(CC + 1) for n in range(CC + 1) if m + n <= min(CC, P)}
    top_h, top_t = max(H, 6), max(CC, 6)
    rng = random.Random(seed)

    def emit(om, cls, w, **kw):
        e = dict(what=w, H=H, CC=CC, S=S, om=list(om), cls=cls, exc='', terms=[], default=[], optimized=[], idle=[])
        e.update(kw)
        eqs.append(e)
        T['events'].append(dict(key=f'm{om[0]}_n{om[1]} {cls} {w}', eq=len(eqs)))

    w = 'amplitude' if what in ('amplitude', 'refuses') else what
    T['classes'] = {'amplitude': ['all'], 'optimized': CLASSES + ['all']}.get(w, CLASSES)
    for om in sorted(oms):
        if w == 'amplitude':
            h, t = _args()
            tr = Truncation(cc=top_t, h=top_h)
            nm = f'compute_m{om[0]}_n{om[1]}_amplitude'
            r, x, _ = call(ns.get(nm, _missing(nm)), A, N, Ansatz(), tr, h, t)
            x = exc or x
            ok, axes = False, -1
            if not x and isinstance(r, sx.Tensor):
                axes = len(r.shape) - 2
                tot = _zero(om)
                for cls in CLASSES:
                    R, x2, _ = _run_add(ns, f'add_m{om[0]}_n{om[1]}_{cls}_terms', om, tr)
                    x = x or x2
                    tot += R
                ok = {k: v for k, v in tot.terms.items() if v} == {k: v for k, v in r.terms.items() if v}
            if not x:    # thermal (hot band) amplitudes are not available and must be refused
                h, t = _args()
                _, x3, _ = call(ns[nm], A, N, Ansatz(ground=False), tr, h, t)
                if x3 != 'NotImplementedError':
                    x = 'calculated hot band amplitudes'
            emit(om, 'all', 'amplitude', exc=x, sum=ok, axes=axes)
            continue
        for cls in CLASSES:
            nm = f'add_m{om[0]}_n{om[1]}_{cls}_terms'
            if exc:
                emit(om, cls, w, exc=exc)
                continue
            full, x, _ = _run_add(ns, nm, om, Truncation(cc=top_t, h=top_h))
            if x:
                emit(om, cls, w, exc=x)
                continue
            if w == 'terms':
                emit(om, cls, w, terms=tab.table(full))
            elif w == 'guards':
                x, tb = guards(ns, nm, om, tab, full, H, CC, top_h, top_t, grid, rng)
                emit(om, cls, w, exc=x, terms=tb)
            elif w == 'optimized':
                x, d, o, idle = optimized(ns, nm, om, cls, H, CC, grid, rng)
                emit(om, cls, w, exc=x, default=d, optimized=o, idle=idle)
        if w == 'optimized':
            x, d, o, idle = optimized_amplitude(ns, om, H, CC)
            emit(om, 'all', w, exc=exc or x, default=d, optimized=o, idle=idle)
    if w == 'optimized':
        # the entry point of the optimized calculation
        sx.Unlabelled.used = False
        nm = 'compute_all_optimized_paths'
        _, x, msg = call(ns.get(nm, _missing(nm)), A, N, Ansatz(), Truncation(cc=CC, h=H))
        emit((0, 0), 'all', 'paths', exc=exc or x and f'{nm} {x}: {msg}', unlabelled=sx.Unlabelled.used)
    return T, tab.rows, eqs


def guards(ns, nm, om, tab, full, H, CC, top_h, top_t, grid, rng):
    """least h and t level at which each einsum is added; 99: it does not depend on the levels monotonically"""
    base = tab.collect(full)

    def at(h, t):
        r, x, _ = _run_add(ns, nm, om, Truncation(cc=t, h=h))
        if x:
            raise sx.Malformed(x)
        return tab.collect(r)
    try:
        hs = [at(h, top_t) for h in range(0, H + 1)] + [base]
        ts = [at(top_h, t) for t in range(0, CC + 1)] + [base]
        hmin, tmin = {}, {}
        for i, c in base.items():
            for lst, out in ((hs, hmin), (ts, tmin)):
                present = [d.get(i, 0) for d in lst]
                lo = next(j for j, v in enumerate(present) if v)
                out[i] = lo if all(v == c for v in present[lo:]) else 99
        extra = [i for d in hs + ts for i in d if i not in base]
        pts = [(h, t) for h in range(H + 1) for t in range(CC + 1)]
        if grid is not None:
            pts = rng.sample(pts, min(grid, len(pts)))
        for h, t in pts:
            d = at(h, t)
            want = {i: c for i, c in base.items() if hmin[i] <= h and tmin[i] <= t}
            for i in set(d) | set(want):
                if d.get(i, 0) != want.get(i, 0):
                    if i in base:
                        hmin[i] = 99
                    else:
                        extra.append(i)
    except sx.Malformed as e:
        return str(e), []
    rows = [[i, c.numerator, c.denominator, hmin[i], tmin[i]] for i, c in base.items()]
    rows += [[i, 0, 1, 99, 99] for i in set(extra)]
    return '', rows


def shadow(t):
    """[[operand kinds+ranks, settings, num, den]] of a result, labels dropped"""
    acc = {}
    for (s, ops), c in t.terms.items():
        acc[ops] = acc.get(ops, 0) + c
    return acc


def used_once(paths):
    """has every contraction path in these (lists of) lists been applied as often as it is listed?"""
    n, todo = {}, [paths]
    while todo:
        p = todo.pop()
        if isinstance(p, (list, tuple)):
            todo += p
        elif isinstance(p, dict):
            todo += p.values()
        elif hasattr(p, 'uses'):
            n.setdefault(id(p), [p, 0])[1] += 1
    return all(p.uses == k for p, k in n.values())


def optimized(ns, nm, om, cls, H, CC, grid, rng):
    d, o, idle = [], [], []
    pts = [(h, t) for h in range(H + 1) for t in range(1, CC + 1)]
    if grid is not None:
        pts = [(H, CC)] + rng.sample(pts, min(grid, len(pts)))
    for h, t in sorted(set(pts)):
        tr = Truncation(cc=t, h=h)
        r, x, _ = _run_add(ns, nm, om, tr)
        if x:
            return x, [], [], []
        pn = f'compute_m{om[0]}_n{om[1]}_{cls}_optimized_paths'
        paths, x, msg = call(ns.get(pn, _missing(pn)), A, N, Ansatz(), tr)
        if x:
            return f'{x}: {msg}', [], [], []
        ro, x, msg = _run_add(ns, nm + '_optimized', om, tr, (paths,))
        if x:
            return f'{x}: {msg}', [], [], []
        if not used_once(paths):
            idle.append([h, t])
        for src, dst in ((r, d), (ro, o)):
            for ops, c in shadow(src).items():
                if c:
                    dst.append([' '.join(ops), [h, t], c.numerator, c.denominator])
    return '', d, o, idle


def optimized_amplitude(ns, om, H, CC):
    """the whole amplitude by way of its own contraction paths, against the default one"""
    pre = f'compute_m{om[0]}_n{om[1]}_'
    tr = Truncation(cc=CC, h=H)
    h, t = _args()
    d, x, msg = call(ns.get(pre + 'amplitude', _missing(pre + 'amplitude')), A, N, Ansatz(), tr, h, t)
    if x:
        return f'{x}: {msg}', [], [], []
    paths, x, msg = call(ns.get(pre + 'optimized_paths', _missing(pre + 'optimized_paths')), A, N, Ansatz(), tr)
    if x:
        return f'{x}: {msg}', [], [], []
    o, x, msg = call(ns.get(pre + 'amplitude_optimized', _missing(pre)), A, N, Ansatz(), tr, h, t, paths)
    if x:
        return f'{x}: {msg}', [], [], []
    return '', *[[[' '.join(ops), [H, CC], c.numerator, c.denominator] for ops, c in shadow(r).items() if c] for r in (d, o)], [] if used_once(paths) else [[H, CC]]


def merge(parts):
    idx, rows, eidx, eqs, traces = {}, [], {}, [], []
    for T, rs, es in parts:
        loc = {}
        for i, r in enumerate(rs, 1):
            k = canon(r)
            if k not in idx:
                rows.append(r)
                idx[k] = len(rows)
            loc[i] = idx[k]
        eloc = {}
        for j, e in enumerate(es, 1):
            e['terms'] = [[loc[t[0]]] + t[1:] for t in e['terms']]
            k = canon(e)
            if k not in eidx:
                eqs.append(e)
                eidx[k] = len(eqs)
            eloc[j] = eidx[k]
        for ev in T['events']:
            ev['eq'] = eloc[ev['eq']]
        traces.append(T)
    return {'einsums': rows, 'eqs': eqs, 'traces': traces}


def describe(sh, t, e, cl):
    if e and e['key'].endswith(' paths'):    # a defect of the template, the same in every module
        key = f"full cc python|{e['key']}|{cl['c']}|{canon(cl['d'])}"
        return key, {'run': t['name'], 'clause': cl['c'], 'detail': cl['d']}
    key = f"{t['name']}|{e['key'] if e else 'end'}|{cl['c']}|{canon(cl['d'])}"
    return key, {'run': t['name'], 'equation': e['key'] if e else None, 'clause': cl['c'], 'detail': cl['d']}


def configs(limit, plimit):
    R6 = range(1, 7)
    # for every H, CC, S the largest projections that are affordable (P beyond CC adds nothing: shown as P = 6)
    big = []
    for h in R6:
        for c in R6:
            for s in R6:
                ps = [p for p in R6 if p <= c and fcc_cost.cost(h, c, s, p) <= limit]
                if ps:
                    big.append((h, c, s, 6 if ps[-1] == c else ps[-1]))
    small = [(h, c, s, p) for h in R6 for c in R6 for s in R6 for p in range(1, 6)
             if p < c and fcc_cost.cost(h, c, s, 6) <= plimit and (h, c, s, p) not in big]
    return big + small


def check(c, what, limit, plimit, grid):
    cfgs = sorted(configs(limit, plimit), key=lambda x: -fcc_cost.cost(*x))
    jobs = [(*x, what, grid, c.seed * 7919 + i) for i, x in enumerate(cfgs)]
    # neither the states, nor f terms, nor the side make a difference to the contractions of the module
    jobs += [(*x, what, grid, c.seed * 7919 - i, gs, rf, side) for i, x in enumerate(cfgs) if fcc_cost.cost(*x) <= plimit // 4
             for gs in (True, False) for rf in (False, True) for side in ('RHS', 'LHS') if not (gs and not rf and side == 'RHS')]
    res = pmap(job, jobs)
    parts = []
    for st, v in res:
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'generator did not finish or wrote something unreadable')
        else:
            parts.append(v)
    # runs which differ only in the largest projection share their equations
    by = {}
    for p in parts:
        by.setdefault((p[0]['CC'], p[0]['S']), []).append(p)
    groups = balance(list(by.values()), lambda ps: 20 + sum(len(e['terms']) + len(e['default']) for p in ps for e in p[2]), n=16)
    shards = [merge([p for ps in g for p in ps]) for g in groups]
    validate(c, 'TraceFccPy.tla', shards, describe)
    for sh in shards:
        c.count(equations=sum(len(t['events']) for t in sh['traces']), distinct_equations=len(sh['eqs']),
                distinct_einsums=len(sh['einsums']), terms=sum(len(e['terms']) + len(e['optimized']) for e in sh['eqs']))
        for t in sh['traces'][:1]:
            c.sample({'run': t['name'], 'equations': len(t['events'])})
