"""Every LaTeX document as a whole: cut into tokens here, read by the machine of spec/TexDoc.tla."""
from core import *
import fam_fcctex
import fam_z

TOKEN = re.compile(r'''
    \\(?P<env>begin|end)\{(?P<envname>[^{}]*)\} |
    \\(?P<lr>left|right)\s*(?:\\[a-zA-Z]+|\\.|.) |
    (?P<br>\\\\) |
    \\(?P<mac>[a-zA-Z]+|.) (?P<opt>\[[^\]]*\])? |
    (?P<script>[\^_])\s*(?P<arg>[^\s{}\\&$^_()])? |
    (?P<one>[{}&$()]) |
    (?P<ch>[^\\{}&$^_()]+)
''', re.X)
DEF = re.compile(r'\\(?:newcommand\{\\(\w+)\}(?:\[(\d)\])?|NewDocumentCommand\{\\(\w+)\}\{G\{\}\})(\{.*\})$')


def preamble(line):
    m = re.fullmatch(r'\\documentclass(?:\[[^\]]*\])?\{\w+\}', line)
    if m:
        return [['class']]
    m = re.fullmatch(r'\\usepackage(?:\[[^\]]*\])?\{(\w+)\}', line)
    if m:
        return [['package', m.group(1)]]
    m = DEF.fullmatch(line)
    if m:
        body = m.group(4)
        depth = 0
        for i, c in enumerate(body):
            depth += (c == '{') - (c == '}')
            if depth == 0 and i < len(body) - 1:
                depth = -1
                break
        if depth != 0:
            return [['unbalanced definition']]
        n = int(m.group(2) or 0) if m.group(1) else 1
        return [['def', m.group(1) or m.group(3), ['x'] * n, sorted(set(re.findall(r'\\([a-zA-Z]+)', body)))]]
    m = re.fullmatch(r'\\(\w+)\{[^{}]*\}', line)
    if m and m.group(1) not in ('begin', 'end'):
        return [['setting', m.group(1)]]
    return None


def tokens(line, head):
    """tokens of one line; head: the document has not begun"""
    if not line.strip():
        return [['par']]
    line = re.sub(r'(?<!\\)%.*', '', line).strip()
    if head and line:
        p = preamble(line)
        if p is not None:
            return p
    out, i = [], 0
    while i < len(line):
        m = TOKEN.match(line, i)
        if not m:
            out.append(['unreadable'])
            break
        i = m.end()
        if m.group('env'):
            out.append([m.group('env'), m.group('envname')])
        elif m.group('lr'):
            out.append([m.group('lr')])
        elif m.group('br'):
            out.append(['\\\\'])
        elif m.group('mac'):
            out.append(['mac', m.group('mac')])
            if m.group('opt'):
                out.append(['opt'])
        elif m.group('script'):
            out.append([m.group('script')])
            if m.group('arg'):
                out.append(['ch'])
        elif m.group('one'):
            out.append([m.group('one')])
        elif m.group('ch').strip():
            out.append(['ch'])
    return out


def cut(text):
    head, lines = True, []
    for line in text.split('\n'):
        t = tokens(line, head)
        if head and ['begin', 'document'] in t:
            head = False
        if t and not (t == [['par']] and lines and lines[-1] == t):
            lines.append(t)
    return lines


def job(kind, *args):
    T = dict(name=f'{kind} {args}', fragment=False)
    if kind.startswith('w'):
        W = mod('latex_w_equations')
        clean_cwd()
        T['fragment'] = kind == 'w thermal'
        fn = W.excited_state_w_equations_latex if T['fragment'] else W.ground_state_w_equations_latex
        _, exc, msg = call(fn, args[0], './w.tex')
        text = None if exc else open('w.tex').read()
        clean_cwd()
    elif kind == 'fcc':
        h, cc, s, p, gs, rf, side = args
        text, exc, msg = generate('fcc', 'tex', (h, cc, s, p), gs, rf, side)
    else:
        v, gs, side, rf = args
        text, exc, msg = generate(kind, 'tex', v, gs, rf, side)
    if exc:
        return T, None, f'{exc}: {msg}'
    return T, cut(text), ''


def merge(parts):
    idx, rows, traces = {}, [], []
    for T, lines, _ in parts:
        ev = []
        for line in lines:
            k = canon(line)
            if k not in idx:
                rows.append(line)
                idx[k] = len(rows)
            ev.append(idx[k])
        traces.append(dict(T, events=ev))
    return {'lines': rows, 'traces': traces}


def describe(sh, t, e, cl):
    where = 'end' if e is None else canon(sh['lines'][e - 1])[:200]
    return f"latex document {t['name'].split(' (')[0]}|{cl['c']}|{where}", {'run': t['name'], 'clause': cl['c'], 'line': where}


def configs(tier):
    quick = tier == 'quick'
    out = [('w', n) for n in range(0, 11 if quick else 13)] + [('w thermal', n) for n in range(1, 5)]
    fc = [c for c in fam_fcctex.configs(tier) if min(c[1], c[3]) <= 3]
    if quick:
        fc = [c for c in fc if (c[4] and c[0] * c[1] * c[2] <= 60) or c[0] * c[1] * c[2] <= 18]
    out += [('fcc', *c) for c in fc]
    for k in fam_z.zhz_configs(tier) + fam_z.eTz_configs(tier, 'RHS') + fam_z.eTz_configs(tier, 'LHS'):
        kind, v, gs, side, rf = (*k, False) if len(k) == 4 else k
        if gs and (kind == 'zhz' or v[1] * v[3] <= (12 if quick else 25)) and (v[-1] in (1, 3, 6) or not quick):
            out.append((kind, v, gs, side, rf))
    return out


def check(c, tier):
    parts = []
    jobs = configs(tier)
    for (st, v), a in zip(pmap(job, jobs), jobs):
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'generator did not finish or wrote something unreadable')
        elif v[1] is None:
            c.violation(f'latex document {v[0]["name"]}|raised|{v[2]}', v[2])
        else:
            parts.append(v)
    by = {}
    for p in parts:
        k = p[0]['name'].split(')')[0].rsplit(',', 1)[0]
        by.setdefault(k, []).append(p)
    groups = balance(list(by.values()), lambda ps: sum(len(x) for p in ps for x in p[1]), n=NPROC if tier == 'quick' else 4 * NPROC)
    shards = [merge([p for ps in g for p in ps]) for g in groups]
    validate(c, 'TraceTexDoc.tla', shards, describe, heap='3g' if tier == 'quick' else '3500m')
    c.count(documents=len(parts), distinct_lines=sum(len(s['lines']) for s in shards), tokens=sum(len(x) for p in parts for x in p[1]))
    for p in parts[:: max(1, len(parts) // 10)]:
        c.sample({'run': p[0]['name'], 'lines': len(p[1])})
