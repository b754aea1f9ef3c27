"""W operators as LaTeX: generate, read, validate."""
from core import *
import tex


def products(s):
    out = []
    for sg, fs in tex.parse(s):
        ts = []
        for x in fs:
            if x[0] == 'num':
                continue
            k = 1
            if x[0] == 'group':
                if len(x[1]) != 1 or x[1][0][0] != 1 or len(x[1][0][1]) != 1:
                    raise tex.TexError('group')
                k, x = x[2], x[1][0][1][0]
            if x[0] != 'op' or x[1] != 't':
                raise tex.TexError(f'factor {x[0]}')
            lab = [int(''.join(c for _, c in s_)) if s_ else 0 for s_ in (x[2], x[3])]
            ts += [lab] * k
        c = tex.rational(fs, sg)
        out.append({'c': [c.numerator, c.denominator], 'ts': ts})
    return out


def equation(lhs, rhs):
    m = re.fullmatch(r'(?:\\bW|\\textbf\{W\})\^(?:\{(\d+)\}|(\d))(?:_\{(\d+)\})?', lhs.strip())
    if not m:
        raise tex.TexError(f'{lhs!r}')
    up, low = int(m.group(1) or m.group(2)), int(m.group(3) or 0)
    rhs = rhs.strip()
    sym = False
    s = re.fullmatch(r'\\hat\{S\}\((.*)\)', rhs)
    if s:
        rhs, sym = s.group(1), True
    return dict(key=f'W^{up}_{low}', m=up, n=low, sym=sym, exc='', terms=products(rhs))


def job(thermal, order):
    W = mod('latex_w_equations')
    clean_cwd()
    fn = W.excited_state_w_equations_latex if thermal else W.ground_state_w_equations_latex
    T = dict(name=f'W latex thermal={thermal} order={order}', thermal=thermal, order=order, document=False, again=False, events=[])
    _, exc, msg = call(fn, order, './w.tex')
    if exc:
        T['events'].append(dict(key='all', m=0, n=0, sym=False, exc=f'{exc}: {msg}', terms=[]))
        return T
    with open('w.tex') as f:
        text = f.read()
    _, exc, msg = call(fn, order, './w.tex')
    with open('w.tex') as f:
        T['again'] = not exc and f.read() == text
    try:
        if thermal:
            b = re.search(r'\\begin\{equation\}\n(.*)\\end\{equation\}', text, re.S)
            head, lines = text[:b.start()], [x for x in b.group(1).split('\n\n') if x.strip()]
            lines = [re.sub(r'\s*\\\\\s*$', '', x) for x in lines]
            sep = '='
            T['document'] = re.search(r'rank of W operator is: (\d+)', head).group(1) == str(order) and text[b.end():].strip() == ''
        else:
            b = re.search(r'\\begin\{document\}\n\\begin\{align\}\n(.*)\\end\{align\}\n\\end\{document\}\s*$', text, re.S)
            lines = b.group(1).split('\\\\\n')
            sep = '&='
            T['document'] = text.count('\\begin{document}') == 1
        for line in lines:
            lhs, rhs = line.split(sep)
            T['events'].append(equation(lhs, rhs))
    except (tex.TexError, AttributeError, ValueError) as e:
        T['events'].append(dict(key='unreadable', m=0, n=0, sym=False, exc=f'unreadable: {e}', terms=[]))
    clean_cwd()
    return T


def describe(sh, t, e, cl):
    return f"{t['name']}|{e['key'] if e else 'end'}|{cl['c']}|{canon(cl['d'])}", {'run': t['name'], 'clause': cl['c'], 'detail': cl['d']}


def check(c, tier):
    runs = [(False, n) for n in range(0, 11 if tier == 'quick' else 13)] + [(True, n) for n in range(1, 5)]
    ts = []
    for st, v in pmap(job, runs):
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'generator did not finish or wrote something unreadable')
        else:
            ts.append(v)
    shards = [{'traces': g} for g in balance(ts, lambda t: 10 + sum(len(e['terms']) for e in t['events']))]
    validate(c, 'TraceWTex.tla', shards, describe)
    c.count(equations=sum(len(t['events']) for t in ts), terms=sum(len(e['terms']) for t in ts for e in t['events']))
    for t in ts[-3:]:
        c.sample({'run': t['name'], 'equations': len(t['events'])})
