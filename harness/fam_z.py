"""z_t and eT_z_t equations as LaTeX: generate, read, validate."""
from core import *
import tex

HEAD = re.compile(r'\\begin\{equation\}\s*\\hat\{\\Omega\} = (?P<om>[^\n]*)\s*\\qquad\\qquad\s*(?P<amp>i\\dv.*?)\s*\\end\{equation\}\s*'
                  r'\\begin\{align\}\\begin\{split\}\s*LHS &=(?P<eq>.*?)\\end\{split\}\\end\{align\}', re.S)


def plain(labels):
    """codes of labels printed without colour; the surface index and a 0 for `no labels` are dropped"""
    return [ord(x) for c, x in labels if x not in (',', '\\gamma', '0')]


def factors(sign, fs):
    """one printed term"""
    r = dict(f=0, g=0, one=0, i=0, d='none', s=False)
    h = z = None
    ts, kinds = [], set()

    def put(o, deriv):
        nonlocal h, z
        k = o[1]
        v = tex.op(o)
        v = {'u': v['u'], 'l': v['l']}
        if k == 'h' and h is None and not deriv:
            h = v
        elif k == 't' and deriv and h is None:
            h = v
            r['d'] = 't'
        elif k in 'ts' and not deriv:
            if h is not None or z is not None:
                raise tex.TexError('order of the factors')
            kinds.add(k)
            ts.append(v)
        elif k == 'z' and z is None:
            z = v
            if deriv:
                if r['d'] != 'none':
                    raise tex.TexError('two derivatives')
                r['d'] = 'z'
        else:
            raise tex.TexError(f'operator {k}')

    for x in fs:
        if x[0] == 'op':
            put(x, False)
        elif x[0] == 'dv':
            if x[1][0] != 'op':
                raise tex.TexError('derivative')
            put(x[1], True)
        elif x[0] == 'f':
            r['f'] += x[1]
        elif x[0] == 'fbar':
            r['g'] += x[1]
        elif x[0] == 'one':
            r['one'] += 1
        elif x[0] == 'i':
            r['i'] += 1
        elif x[0] != 'num':
            raise tex.TexError(f'factor {x[0]}')
    if z is None or (h is None and r['d'] != 'z') or len(kinds) > 1:
        raise tex.TexError('operators of a term')
    if h is None:
        h = {'u': [], 'l': []}
    c = tex.rational(fs, sign)
    r.update(c=[c.numerator, c.denominator], h=h, z=z, ts=ts, s='s' in kinds)
    return r


def group_of(prod, lead, tail=None):
    """product `lead ( ... ) tail`: the sum inside"""
    n = len(lead)
    if [x[0] for x in prod[:n]] != lead or len(prod) != n + 1 + (tail is not None) or prod[n][0] != 'group' or prod[n][2] != 1:
        raise tex.TexError('not a sum')
    if tail is not None and not is_delta(prod[n + 1], tail):
        raise tex.TexError('delta')
    return prod[n][1]


def is_delta(f, labels):
    """(1 - delta_{labels})"""
    return (f[0] == 'group' and f[2] == 1 and len(f[1]) == 2 and f[1][0] == (1, [('num', 1)]) and f[1][1][0] == -1
            and len(f[1][1][1]) == 1 and f[1][1][1][0][0] == 'delta' and [x for _, x in f[1][1][1][0][2]] == labels)


def read_amplitude(s):
    a, b = s.split(' = ')
    pa, pb = tex.parse(a), tex.parse(b)
    if [x[0] for x in pa[0][1]] != ['i', 'dv'] or len(pa) != 1 or len(pb) != 1 or len(pb[0][1]) != 1:
        raise tex.TexError('amplitude equation')
    t, g = pa[0][1][1][1], pb[0][1][0]
    if t[:2] != ('op', 'hat t') or g[:2] != ('op', 'hat G'):
        raise tex.TexError('amplitude equation')
    return dict(tu=plain(t[2]), tl=plain(t[3]), gu=plain(g[2]), gl=plain(g[3]))


def read_equation(kind, side, s, e):
    nothing = e
    if kind == 'eTz' and side == 'LHS':
        p = tex.parse(s)
        if len(p) != 1 or p[0][0] != 1:
            raise tex.TexError('left hand side')
        e['terms'] = [fixs(factors(sg, fs), True) for sg, fs in tex.expand(group_of(p[0][1], ['sum']))]
        return
    left, right = s.split('\\\\ RHS &=')
    p = tex.parse(left)
    if len(p) != 1 or p[0][0] != 1:
        raise tex.TexError('left hand side')
    inner = group_of(p[0][1], ['i'])
    if len(inner) != 1 or inner[0][0] != 1 or len(inner[0][1]) != 1 or inner[0][1][0][0] != 'dv' or inner[0][1][0][1][:2] != ('op', 'hat z'):
        raise tex.TexError('left hand side')
    z = inner[0][1][0][1]
    e['lhs'] = plain(z[2]) + plain(z[3])
    p = tex.parse(right)
    if [x[0] for x in p] != [1, 1, -1]:
        raise tex.TexError('right hand side')
    first = p[0][1]
    if len(first) != 2 or first[0][:2] != ('op', 'h') or not is_delta(first[1], ['x', '\\gamma']):
        raise tex.TexError('first term')
    u, lo = first[0][2], first[0][3]
    zero = [x for _, x in lo] == ['0', ',', 'x', 'b'] and not u
    e['first'] = dict(zero=zero, u=plain(u), l=[] if zero else plain(lo))
    e['terms'] = [fixs(factors(sg, fs), False) for sg, fs in tex.expand(group_of(p[1][1], ['sum'], ['c', 'b'] if kind == 'zhz' else None))]
    fifth = []
    for sg, fs in tex.expand(group_of(p[2][1], ['i', 'sum'])):
        if sg != 1 or [x[0] for x in fs] != ['dv', 'op'] or fs[0][1][:2] != ('op', 'hat t') or fs[1][1] != 'hat z':
            raise tex.TexError('product of dt and z')
        t, z = fs[0][1], fs[1]
        fifth.append(dict(t=dict(u=plain(t[2]), l=plain(t[3])), z=dict(u=plain(z[2]), l=plain(z[3]))))
    e['fifth'] = fifth


def fixs(t, lhs):
    # a product without t's has no say on whether they would be s's
    if not t['ts']:
        t['s'] = lhs
    return t


def job(kind, values, gs, side, rf=False):
    H, CC, eT, P = (values[0], values[1], 0, values[2]) if kind == 'zhz' else (values[0], values[1], values[3], values[4])
    src, exc, msg = generate(kind, 'tex', values, gs=gs, side=side, rf=rf)
    T = dict(name=f'{kind} latex {values} ground={gs} {side} remove_f={rf}', rf=rf, note='f$ prefactor have been removed' in (src or ''), kind=kind, H=H, CC=CC, eT=eT, P=P, gs=gs, side=side,
             refused=exc == 'NotImplementedError', events=[])
    eqs = []

    def blank(om):
        return dict(H=H, CC=CC, eT=eT, side='RHS' if kind == 'zhz' else side, om=list(om), exc='', terms=[], fifth=[], lhs=[],
                    first=dict(zero=False, u=[], l=[]), head=dict(tu=[], tl=[], gu=[], gl=[]))

    def emit(e, heading=''):
        eqs.append(e)
        T['events'].append(dict(key=f"up{e['om'][0]}_down{e['om'][1]}", eq=len(eqs), heading=heading))

    if exc:
        if gs or exc != 'NotImplementedError':
            e = blank((0, 0))
            e['exc'] = f'{exc}: {msg}'
            emit(e)
        return T, eqs
    pos, heading = 0, ''
    try:
        b = tex.strip_comments(tex.body(src))
        for m in HEAD.finditer(b):
            between = b[pos:m.start()]
            pos = m.end()
            ks = re.findall(r'\\(?:subsection|paragraph)\{(\w+) Equations\}', between)
            heading = ks[-1] if ks else heading
            rest = re.sub(r'\\textbf\{Note that all terms with a \$f\$ prefactor have been removed\}|\\(?:subsection|paragraph)\{\w+ Equations\}|\\vspace\{2cm\}|\\newpage|\s', '', between)
            if rest:
                raise tex.TexError(f'between equations: {rest[:80]}')
            e = blank(tex.omega(m.group('om')))
            try:
                e['head'] = read_amplitude(m.group('amp'))
                read_equation(kind, side, m.group('eq'), e)
            except (tex.TexError, ValueError, IndexError, TypeError) as x:
                e['exc'] = f'unreadable: {x}'
            emit(e, heading)
        rest = re.sub(r'\\end\{document\}|\s', '', b[pos:])
        if rest:
            raise tex.TexError(f'after the last equation: {rest[:80]}')
    except tex.TexError as x:
        e = blank((0, 0))
        e['exc'] = f'unreadable: {x}'
        emit(e)
    return T, eqs


def merge(parts):
    idx, eqs, traces = {}, [], []
    for T, es in parts:
        loc = {}
        for j, e in enumerate(es, 1):
            k = canon(e)
            if k not in idx:
                eqs.append(e)
                idx[k] = len(eqs)
            loc[j] = idx[k]
        for ev in T['events']:
            ev['eq'] = loc[ev['eq']]
        traces.append(T)
    return {'eqs': eqs, 'traces': traces}


def describe(sh, t, e, cl):
    return f"{t['name']}|{e['key'] if e else 'end'}|{cl['c']}|{canon(cl['d'])}", {'run': t['name'], 'equation': e['key'] if e else None, 'clause': cl['c'], 'detail': cl['d']}


def check(c, configs):
    res = pmap(job, configs)
    parts = []
    for st, v in res:
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'generator did not finish or wrote something unreadable')
        else:
            parts.append(v)
    by = {}
    for p in parts:
        by.setdefault((p[0]['H'], p[0]['CC'], p[0]['eT']), []).append(p)
    groups = balance(list(by.values()), lambda ps: 5 + len({canon(e) for p in ps for e in p[1]}) + sum(len(e['terms']) for p in ps[:1] for e in p[1]))
    shards = [merge([p for ps in g for p in ps]) for g in groups]
    validate(c, 'TraceZTex.tla', [s for s in shards if s['eqs']], describe)
    for sh in shards:
        c.count(equations=sum(len(t['events']) for t in sh['traces']), distinct_equations=len(sh['eqs']), terms=sum(len(e['terms']) for e in sh['eqs']))
        for t in sh['traces'][:2]:
            c.sample({'run': t['name'], 'equations': len(t['events'])})


R6 = range(1, 7)


def zhz_configs(tier):
    out = [('zhz', (h, c, p), True, side, rf) for h in R6 for c in R6 for p in R6 for side in ('RHS', 'LHS') for rf in (False, True)]
    out += [('zhz', (h, c, p), False, s) for h in R6 for c in (1, 2, 3) for p in (1, 2, 3) for s in ('RHS', 'LHS')]
    return out


def eTz_configs(tier, side):
    def keep(h, c, e, p):
        # generating takes time in c and e, hardly in h and p
        if tier == 'thorough':
            return p in (2, 6) or (c, e) not in ((6, 7), (6, 8))
        if c <= 4 and e <= 6:
            return True
        if c <= 4 or e <= 4:
            return p in (2, 4, 6)
        if c == 5:
            return p == 6 and (e <= 6 or h in (2, 3))
        return p == 6 and (e <= 5 or (e == 6 and h in (2, 3)))
    out = [('eTz', (h, c, 1, e, p), True, side) for h in R6 for c in R6 for e in range(1, 9) for p in R6 if keep(h, c, e, p)]
    out += [('eTz', (h, c, 1, e, p), True, side, True) for h in R6 for c in (1, 2, 3, 4) for e in (1, 2, 3, 4) for p in (1, 2, 3, 6)
            if p in (3, 6) or max(h, c, e) <= 3]
    out += [('eTz', (h, c, 1, e, p), False, side) for h in R6 for c in (1, 2, 3) for e in (1, 2) for p in (1, 2, 3)]
    return sorted(out, key=lambda x: (-x[1][1] * x[1][3], -x[1][0]))
