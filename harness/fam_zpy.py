"""eT_z_t Python modules: generate, execute symbolically, validate."""
from core import *
import symexec as sx
from symexec import Truncation, Ansatz, Args, A_DIM as A, N_DIM as N

CLASSES = ['HZ', 'eT_HZ']


def _args(side):
    if side == 'RHS':
        return Args('t', 0), Args('h', 2), Args('z', 1)
    return Args('t', 0), Args('d', 0), Args('z', 1), Args('y', 1)


def _zero(om):
    return sx.Tensor((A,) + (N,) * om[1])


def _missing(name):
    def f(*a):
        raise NameError(name)
    return f


def job(values, side, what, gs=True):
    H, CC, Tr, eT, P = values
    src, exc, msg = generate('eTz', 'py', values, gs=gs, side=side)
    T = dict(name=f'eTz python {values} ground={gs} {side}', H=H, CC=CC, eT=eT, P=P, side=side, gs=gs, events=[],
             classes=['all'] if what == 'amplitude' else CLASSES)
    tab = sx.EinTable()
    eqs, ns = [], {}
    if not exc:
        ns, exc, msg = call(sx.load, src)
        ns = ns or {}
    oms = {(int(m.group(1)), int(m.group(2))) for m in (re.fullmatch(r'(?:add|compute)_m(\d+)_n(\d+)_.*', k) for k in ns) if m}
    oms |= {(0, n) for n in range(min(CC, P) + 1)}
    TOPH, TOPZ, TOPT = 8, 8, 3

    def run(om, cls, tr, opt=False, ground=True):
        nm = f'add_m{om[0]}_n{om[1]}_{cls}_terms' if side == 'RHS' else f'compute_m{om[0]}_n{om[1]}_{cls}_LHS'
        nm += '_optimized' if opt else ''
        R = _zero(om)
        _, x, m = call(ns.get(nm, _missing(nm)), R, Ansatz(ground=ground), tr, *_args(side), *((None,) if opt else ()))
        return R, x and f'{nm} {x}: {m}'

    def emit(om, cls, w, suffix='', **kw):
        e = dict(what=w, H=H, CC=CC, eT=eT, side=side, gs=gs, hot=False, om=list(om), cls=cls, exc='', terms=[], sum=False, axes=-1,
                 confirmed=[], refused=False, optimized=False)
        e.update(kw)
        eqs.append(e)
        T['events'].append(dict(key=f'm{om[0]}_n{om[1]} {cls} {w}{suffix}', eq=len(eqs)))

    def full():
        return Truncation(cc=TOPZ, h=TOPH, t=TOPT, z=TOPZ)

    nz = lambda t: {k: v for k, v in t.terms.items() if v}
    for om in sorted(oms):
        if exc:
            for cls in T['classes']:
                emit(om, cls, what, exc=f'{exc}: {msg}')
            continue
        if what == 'amplitude':
            nm = f'compute_m{om[0]}_n{om[1]}_amplitude'
            tr = full()
            r, x, m = call(ns.get(nm, _missing(nm)), A, N, Ansatz(), tr, *_args(side))
            kw = dict(exc=x and f'{nm} {x}: {m}')
            if not x and isinstance(r, sx.Tensor):
                tot = _zero(om)
                for cls in CLASSES:
                    R, x2 = run(om, cls, full())
                    kw['exc'] = kw['exc'] or x2
                    tot += R
                hr, x3, _ = call(ns[nm], A, N, Ansatz(ground=False), full(), *_args(side))
                hot = False
                if not gs and not x3 and isinstance(hr, sx.Tensor):     # hot bands: the sum of their own parts
                    ht = _zero(om)
                    for cls in CLASSES:
                        R, x2 = run(om, cls, full(), ground=False)
                        kw['exc'] = kw['exc'] or x2
                        ht += R
                    hot = nz(ht) == nz(hr) and hr.shape == ht.shape
                tr2 = full()
                nmo = nm + '_optimized'
                o, x4, m4 = call(ns.get(nmo, _missing(nmo)), A, N, Ansatz(), tr2, *_args(side), ((), ()))
                kw['exc'] = kw['exc'] or x4 and f'{nmo} {x4}: {m4}'
                same = not x4 and o.shape == r.shape and nz(o) == nz(r) and tr2.confirmed == tr.confirmed
                for cls in CLASSES:     # and for every setting of the flags
                    for h in range(0, 4):
                        for t in (0, 1):
                            for z in range(0, CC + 1):
                                q = lambda: Truncation(cc=z, h=h, t=t, z=z)
                                (a, xa), (b, xb) = run(om, cls, q()), run(om, cls, q(), opt=True)
                                same = same and not xa and not xb and nz(a) == nz(b)
                                if not gs:
                                    (a, xa), (b, xb) = run(om, cls, q(), ground=False), run(om, cls, q(), opt=True, ground=False)
                                    same = same and not xa and not xb and nz(a) == nz(b)
                kw.update(sum=nz(tot) == nz(r) and r.shape == tot.shape, axes=len(r.shape) - 1, confirmed=list(tr.confirmed),
                          refused=x3 == 'NotImplementedError', hot=hot, optimized=bool(same))
            emit(om, 'all', 'amplitude', **kw)
            continue
        for cls in CLASSES:
            for ground in ((True,) if gs else (True, False)):
                suffix = '' if ground else ' hot bands'
                R, x = run(om, cls, full(), ground=ground)
                if x:
                    emit(om, cls, what, suffix, exc=x)
                elif what == 'terms':
                    emit(om, cls, what, suffix, terms=[t + [0, 0, 0] for t in tab.table(R)])
                else:
                    emit(om, cls, what, suffix,
                         terms=guards(tab, R, lambda h, t, z: run(om, cls, Truncation(cc=TOPZ, h=h, t=t, z=z), ground=ground), H, CC, TOPH, TOPT, TOPZ))
    return T, tab.rows, eqs


def guards(tab, R, run, H, CC, TH, TT, TZ):
    """least h, t, z level at which each einsum is added; 99: not a threshold"""
    base = tab.collect(R)
    grid = {}
    hs, ts, zs = [*range(0, H + 1), TH], [*range(0, 3), TT], [*range(0, CC + 1), TZ]
    for h in hs:
        for t in ts:
            for z in zs:
                r, x = run(h, t, z)
                grid[h, t, z] = tab.collect(r) if not x else {0: 1}
    lev = {}
    for i in base:
        on = {k for k, d in grid.items() if d.get(i, 0)}
        lo = [min(k[j] for k in on) for j in range(3)]
        want = {k for k in grid if all(k[j] >= lo[j] for j in range(3))}
        ok = on == want and all(grid[k][i] == base[i] for k in on)
        lev[i] = lo if ok else [99, 99, 99]
    stray = any(i not in base for d in grid.values() for i in d)
    out = [[i, c.numerator, c.denominator, *([99] * 3 if stray else lev[i])] for i, c in base.items()]
    return out


def merge(parts):
    idx, rows, eidx, eqs, traces = {}, [], {}, [], []
    for T, rs, es in parts:
        loc = {}
        for j, r in enumerate(rs, 1):
            k = canon(r)
            if k not in idx:
                rows.append(r)
                idx[k] = len(rows)
            loc[j] = idx[k]
        eloc = {}
        for j, e in enumerate(es, 1):
            e['terms'] = sorted([loc[t[0]]] + t[1:] for t in e['terms'])
            k = canon(e)
            if k not in eidx:
                eqs.append(e)
                eidx[k] = len(eqs)
            eloc[j] = eidx[k]
        for ev in T['events']:
            ev['eq'] = eloc[ev['eq']]
        traces.append(T)
    return {'einsums': rows, 'eqs': eqs, 'traces': traces}


def describe(sh, t, e, cl):
    d = canon(cl['d'])
    # the term with neither t nor h is missing whatever the truncation: one finding per equation
    name = f"eTz python {t['side']}" if cl['c'] == 'missing contraction' and cl['d'][:5] == [0] * 5 else t['name']
    key = e['key'] if e else 'end'
    if name != t['name']:
        key = key.replace(' hot bands', '')
    return f"{name}|{key}|{cl['c']}|{d}", {'run': t['name'], 'equation': e['key'] if e else None, 'clause': cl['c'], 'detail': cl['d']}


def configs(tier):
    def keep(h, c, e, p):
        if tier == 'thorough':
            return e <= 6 or (c <= 5 and p in (2, 5, 6))
        if c <= 4 and e <= 4:
            return True
        if c <= 4:
            return p in (2, 5) and (e <= 5 or h in (2, 3))
        if c == 5:
            return p in (2, 6) and (e <= 4 or (e == 5 and h in (2, 4)))
        return p == 6 and (e <= 3 or (e == 4 and h in (2, 6)))
    R6 = range(1, 7)
    return sorted([(h, c, 1, e, p) for h in R6 for c in R6 for e in range(1, 9) for p in R6 if keep(h, c, e, p)],
                  key=lambda x: (-x[1] * x[3], -x[0]))


def check(c, side, whats, tier):
    jobs = [(v, s, w, True) for v in configs(tier) for s in side for w in whats]
    top = 3 if tier == 'quick' else 5
    jobs += [(v, s, w, False) for v in configs(tier) if max(v[0], v[1]) <= top and v[3] <= top for s in side for w in whats]
    parts = []
    for st, v in pmap(job, jobs):
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'generator did not finish or wrote something unreadable')
        else:
            parts.append(v)
    by = {}
    for p in parts:
        by.setdefault((p[0]['H'], p[0]['CC'], p[0]['eT'], p[0]['side']), []).append(p)
    groups = balance(list(by.values()), lambda ps: 5 + sum(len(e['terms']) + 1 for p in ps for e in p[2]))
    shards = [merge([p for ps in g for p in ps]) for g in groups]
    validate(c, 'TraceZPy.tla', [s for s in shards if s['eqs']], describe)
    for sh in shards:
        c.count(functions=sum(len(t['events']) for t in sh['traces']), distinct_equations=len(sh['eqs']),
                distinct_einsums=len(sh['einsums']), terms=sum(len(e['terms']) for e in sh['eqs']))
        for t in sh['traces'][:2]:
            c.sample({'run': t['name'], 'functions': len(t['events'])})
