"""full CC equations as LaTeX: generate, read, validate."""
import hashlib
from core import *
import tex

CLASSES = ['fully_connected', 'linked_disconnected', 'unlinked_disconnected']
NONE = {'fully_connected': r'\textit{no fully connected terms}',
        'linked_disconnected': r'\textit{no linked disconnected terms}',
        'unlinked_disconnected': r'\textit{no unlinked disconnected terms}'}
BLOCK = re.compile(r'\\begin\{align\}\\begin\{split\}\n\s*\\hat\{\\Omega\} = (.*?)\n\\\\ LHS &=\n(.*?)\n\\\\ RHS &=\n(.*?)\n\\end\{split\}\\end\{align\}', re.S)


def term_record(sign, fs):
    h, ts, f, g = None, [], 0, 0
    for x in fs:
        if x[0] == 'op' and x[1] == 'h' and h is None:
            h = tex.op(x)
        elif x[0] == 'op' and x[1] == 't':
            ts.append(tex.op(x))
        elif x[0] == 'f':
            f += x[1]
        elif x[0] == 'fbar':
            g += x[1]
        elif x[0] == 'num':
            pass
        else:
            raise tex.TexError(f'factor {x[0]} in a term')
    if h is None:
        raise tex.TexError('term without h')
    c = tex.rational(fs, sign)
    return {'c': [c.numerator, c.denominator], 'f': f, 'g': g,
            'h': {'u': h['u'], 'l': h['l']}, 'ts': [{'u': t['u'], 'l': t['l']} for t in ts]}


def terms_of(s):
    return [term_record(sg, fs) for sg, fs in tex.expand(tex.parse(s))]


def lhs_of(s):
    """i( ... )"""
    p = tex.parse(s)
    if len(p) != 1 or p[0][0] != 1 or len(p[0][1]) != 2 or p[0][1][0] != ('i',) or p[0][1][1][0] != 'group':
        raise tex.TexError('left hand side')
    out = []
    for sg, fs in p[0][1][1][1]:
        if sg != 1:
            raise tex.TexError('sign on the left hand side')
        d, ts, eps = 0, [], 0
        for x in fs:
            if x[0] == 'dv' and d == 0 and x[1][0] == 'op' and x[1][1] == 't':
                ts.append(tex.op(x[1]))
                d = len(ts)
            elif x[0] == 'op' and x[1] == 't':
                ts.append(tex.op(x))
            elif x[0] == 'eps':
                eps += 1
            else:
                raise tex.TexError(f'factor {x[0]} on the left hand side')
        if eps + (d > 0) != 1:
            raise tex.TexError('neither derivative nor energy term')
        out.append({'d': d, 'ts': [{'u': t['u'], 'l': t['l']} for t in ts]})
    return out


def split_classes(rhs):
    """the three sums of a right hand side"""
    rhs = rhs.strip()
    if rhs.startswith('%\n%\n'):
        rhs = rhs[4:]
    return re.split(r'\n%\n%\n\\\\  &\+\n%\n%\n', rhs)


def job(H, CC, S, P, gs, rf, side):
    src, exc, msg = generate('fcc', 'tex', (H, CC, S, P), gs=gs, rf=rf, side=side)
    T = dict(name=f'full cc latex H={H} CC={CC} S={S} P={P} ground={gs} remove_f={rf} {side}', H=H, CC=CC, S=S, P=P, gs=gs, rf=rf,
             classes=CLASSES + ['lhs'], refused=exc == 'NotImplementedError', events=[])
    eqs = []

    def emit(om, cls, w, heading='', **kw):
        e = dict(what=w, H=H, CC=CC, S=S, gs=gs, rf=rf, om=list(om), cls=cls, exc='', terms=[], lhs=[])
        e.update(kw)
        eqs.append(e)
        T['events'].append(dict(key=f'up{om[0]}_down{om[1]} {cls}', eq=len(eqs), refused=False, heading=heading))

    if exc:
        if min(CC, P) <= 3 or exc != 'NotImplementedError':
            emit((0, 0), 'fully_connected', 'rhs', exc=f'{exc}: {msg}')
        return T, eqs
    try:
        b = tex.body(src)
        pos, heading = 0, ''
        for m in BLOCK.finditer(b):
            between = tex.strip_comments(b[pos:m.start()])
            pos = m.end()
            for k in re.findall(r'\\(?:subsection|paragraph)\{(\w+) Equations\}', between):
                heading = k
            rest = re.sub(r'\\(?:subsection|paragraph)\{\w+ Equations\}|\\newpage|\s', '', between)
            if rest:
                raise tex.TexError(f'between equations: {rest[:80]}')
            om = tex.omega(m.group(1))
            try:
                emit(om, 'lhs', 'lhs', heading, lhs=lhs_of(m.group(2)))
            except tex.TexError as e:
                emit(om, 'lhs', 'lhs', heading, exc=f'unreadable: {e}')
            parts = split_classes(m.group(3))
            if om == [0, 0]:
                p = tex.parse(m.group(3))
                if len(p) != 3 or any(len(x[1]) != 1 or x[0] != 1 or x[1][0][0] != 'group' for x in p):
                    raise tex.TexError('zero order equation does not have three sums')
                for cls, x in zip(CLASSES, p):
                    emit(om, cls, 'rhs', heading, terms=[term_record(sg, fs) for sg, fs in tex.expand([x])])
                continue
            if len(parts) != 3:
                raise tex.TexError(f'{len(parts)} sums instead of three for {om}')
            for cls, s in zip(CLASSES, parts):
                try:
                    if s.strip() == NONE[cls]:
                        emit(om, cls, 'rhs', heading)
                    else:
                        ts = terms_of(s)
                        if not ts:
                            raise tex.TexError('empty sum')
                        emit(om, cls, 'rhs', heading, terms=ts)
                except tex.TexError as e:
                    emit(om, cls, 'rhs', heading, exc=f'unreadable: {e}')
        rest = re.sub(r'\\end\{document\}|\s', '', tex.strip_comments(b[pos:]))
        if rest:
            raise tex.TexError(f'after the last equation: {rest[:80]}')
    except tex.TexError as e:
        emit((0, 0), 'document', 'rhs', exc=f'unreadable: {e}')
    return T, eqs


def merge(parts, check):
    idx, rows, eidx, eqs, traces = {}, [], {}, [], []
    for T, es in parts:
        eloc = {}
        for j, e in enumerate(es, 1):
            e = dict(e)
            out = []
            for t in e['terms']:
                k = canon(t)
                if k not in idx:
                    rows.append(t)
                    idx[k] = len(rows)
                out.append(idx[k])
            e['terms'] = out
            k = canon(e)
            if k not in eidx:
                eqs.append(e)
                eidx[k] = len(eqs)
            eloc[j] = eidx[k]
        for ev in T['events']:
            ev['eq'] = eloc[ev['eq']]
        traces.append(T)
    if not eqs:
        eqs.append(dict(what='none', H=1, CC=1, S=1, gs=True, rf=False, om=[0, 0], cls='', exc='', terms=[], lhs=[]))
    return {'check': check, 'terms': rows, 'eqs': eqs, 'traces': traces}


def describe(sh, t, e, cl):
    d = canon(cl['d'])
    if len(d) > 300:
        d = 'sha256:' + hashlib.sha256(d.encode()).hexdigest()
    # the same equation comes with every projection truncation: one finding
    name = f"full cc latex H={t['H']} CC={t['CC']} S={t['S']} ground={t['gs']} remove_f={t['rf']}"
    if e is None:
        name = t['name']
    return f"{name}|{e['key'] if e else 'end'}|{cl['c']}|{d}", {'run': t['name'], 'equation': e['key'] if e else None, 'clause': cl['c'], 'detail': cl['d']}


def configs(tier):
    R6 = range(1, 7)
    quick = tier == 'quick'
    both = (False, True)
    # ground state: every H, CC, S; equations of lower projections are checked again with P = 1, 2
    ground = [(h, c, s, 3, True, rf, 'RHS') for h in R6 for c in R6 for s in R6 for rf in both]
    ground += [(h, c, s, p, True, rf, 'RHS') for h in R6 for c in R6 for s in R6 for p in (1, 2) for rf in both
               if not quick or (h in (1, 2, 4) and s <= 2)]
    ground += [(h, c, s, p, gs, rf, 'LHS') for h in (1, 2, 3) for c in (1, 2, 3, 4) for s in (1, 2, 3) for p in (1, 2, 3)
               for gs in both for rf in both if not quick or ((gs or c + s <= 4) and (s == 2 or h == 2))]
    # P beyond 3 with CC up to 3, and CC beyond 3 with P up to 3, are the same projections
    ground += [(h, c, s, p, True, rf, 'RHS') for h in (2, 3) for c in (1, 2, 3) for s in (1, 2, 3) for p in (4, 5, 6) for rf in both]

    def light(h, c, s):
        # cluster types grow as c^2, products of s of them
        w = (c * (c + 3) // 2) ** s
        return w <= (8000 if quick else 600000)
    exc = [(h, c, s, 3, False, rf, 'RHS') for h in R6 for c in R6 for s in R6 for rf in both if light(h, c, s)]
    exc += [(h, c, s, p, False, rf, 'RHS') for h in range(1, 3 if quick else 7) for c in range(1, 4) for s in range(1, 3 if quick else 4)
            for p in (1, 2, 4, 6) for rf in both]
    refuse = [(h, c, s, p, gs, rf, 'RHS') for h in (1, 2, 3) for c in (4, 5, 6) for s in (1, 2) for p in (4, 5, 6) for gs in both for rf in both
              if (gs and s == 1) or (h == 1 and c == 4 and s == 1)]
    return list(dict.fromkeys(ground + exc + refuse))


def check(c, what, tier):
    res = pmap(job, sorted(configs(tier), key=lambda x: -(x[0] * x[1] * x[2] * (1 if x[4] else 20))))
    by = {}
    for st, v in res:
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'generator did not finish or wrote something unreadable')
        else:
            by.setdefault((v[0]['CC'], v[0]['S'], v[0]['gs']), []).append(v)
    groups = balance(list(by.values()), lambda ps: 20 + sum(len(e['terms']) * (5 if not e['gs'] else 1) for p in ps for e in p[1]), n=16)
    shards = [merge([p for ps in g for p in ps], what) for g in groups]
    validate(c, 'TraceFccTex.tla', shards, describe)
    for sh in shards:
        c.count(equations=sum(len(t['events']) for t in sh['traces']), distinct_equations=len(sh['eqs']),
                distinct_terms=len(sh['terms']), terms=sum(len(e['terms']) for e in sh['eqs']))
        for t in sh['traces'][:1]:
            c.sample({'run': t['name'], 'equations': len(t['events'])})
