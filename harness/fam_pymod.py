"""generated Python modules: read as tokens, validated against PyModule."""
import ast
from core import *
import fam_fccpy
import fam_zpy
import fcc_cost

GEN_W = {'w': ('code_w_equations', 'generate_w_operator_equations_file'),
         'residual': ('code_residual_equations', 'generate_residual_equations_file'),
         'dt': ('code_dt_equations', 'generate_dt_amplitude_equations_file')}


class Reader:
    """tokens of one definition"""

    def __init__(self, alias, sigs):
        self.toks, self.locals, self.alias, self.sigs = [], set(), alias, sigs

    def emit(self, *t):
        self.toks.append(list(t))

    def bind(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.locals.add(x.id)
                self.emit('bind', x.id)

    def expr(self, n):
        if n is None:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.emit('for')
            for g in n.generators:
                self.expr(g.iter)
                self.bind(g.target)
                for i in g.ifs:
                    self.expr(i)
            for k in ('elt', 'key', 'value'):
                self.expr(getattr(n, k, None))
            self.emit('rof')
            return
        if isinstance(n, ast.Lambda):
            self.emit('for')
            for a in n.args.args:
                self.locals.add(a.arg)
                self.emit('bind', a.arg)
            self.expr(n.body)
            self.emit('rof')
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.emit('use', n.id)
            return
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in self.alias:
            self.emit('use', n.value.id)
            self.emit('member', n.value.id, n.attr)
            return
        if isinstance(n, ast.Call):
            self.call(n)
        for c in ast.iter_child_nodes(n):
            self.expr(c)

    def call(self, n):
        f = n.func
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        num = len(n.args) + len(n.keywords)
        if isinstance(f, ast.Name) and f.id in self.sigs and not star:
            self.emit('call', f.id, num)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.alias:
            what = self.alias[f.value.id]
            if what == 'residual_equations' and not star:
                self.emit('call', f'residual_equations.{f.attr}', num)
            if f.attr in ('einsum', 'contract', 'contract_expression') and not star and n.args \
                    and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                s = n.args[0].value.replace(' ', '')
                if '.' not in s and '->' in s:
                    ins, out = s.split('->')
                    self.emit('einsum', [[ord(c) for c in x] for x in ins.split(',')], [ord(c) for c in out], len(n.args) - 1)

    def block(self, b):
        for s in b:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.If):
            self.expr(s.test)
            self.emit('if')
            self.block(s.body)
            self.emit('else')
            self.block(s.orelse)
            self.emit('fi')
        elif isinstance(s, (ast.For, ast.While)):
            self.expr(s.iter if isinstance(s, ast.For) else s.test)
            self.emit('for')
            if isinstance(s, ast.For):
                self.bind(s.target)
            self.block(s.body)
            self.emit('rof')
            self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr)
                if i.optional_vars:
                    self.bind(i.optional_vars)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            for part in [s.body, s.orelse, *[h.body for h in s.handlers]]:
                self.emit('for')
                self.block(part)
                self.emit('rof')
            self.block(s.finalbody)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c)
            self.emit('leave')
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):     # within the module, or nested
            self.locals.add(s.name)
            self.emit('bind', s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.locals.add(a.asname or a.name)
                self.emit('bind', a.asname or a.name)
        elif isinstance(s, ast.Assign):
            self.expr(s.value)
            for t in s.targets:
                self.expr(t)
                self.bind(t)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value)
            if isinstance(s.target, ast.Name):
                self.locals.add(s.target.id)
                self.emit('use', s.target.id)
            else:
                self.expr(s.target)
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.emit('leave')
        else:
            for c in ast.iter_child_nodes(s):
                self.expr(c)


def signature(f):
    a = f.args
    n = len(a.posonlyargs) + len(a.args) + len(a.kwonlyargs)
    opt = len(a.defaults) + sum(d is not None for d in a.kw_defaults)
    return [n - opt, 99 if a.vararg or a.kwarg else n]


def functions(tree):
    return [s for s in tree.body if isinstance(s, ast.FunctionDef)]


def read(src):
    """imports, alias, sigs, definitions"""
    tree = ast.parse(src)
    imports, alias = [], {}
    for s in ast.walk(tree):
        if isinstance(s, ast.Import):
            for a in s.names:
                imports.append([a.name, ''])
                alias[a.asname or a.name] = a.name
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                imports.append(['.' * s.level + (s.module or ''), a.name])
                alias[a.asname or a.name] = a.name
    fs = functions(tree)
    sigs = {f.name: signature(f) for f in fs}
    defs = []
    for f in fs:
        r = Reader(alias, sigs)
        for d in f.args.defaults:
            r.expr(d)
        ar = f.args
        params = [a.arg for a in (*ar.posonlyargs, *ar.args, *ar.kwonlyargs, *filter(None, (ar.vararg, ar.kwarg)))]
        r.block(f.body)
        defs.append(dict(key=f.name, params=params, locals=sorted(r.locals), toks=r.toks))
    r = Reader(alias, sigs)
    r.block(tree.body)
    defs.append(dict(key='<module>', params=[], locals=sorted(r.locals), toks=r.toks))
    return imports, alias, sigs, defs


def _w(kind, *args):
    m, f = GEN_W[kind]
    clean_cwd()
    _, exc, msg = call(getattr(mod(m), f), *args, './generated_module.py')
    src = None
    if not exc:
        with open('generated_module.py') as fp:
            src = fp.read()
    clean_cwd()
    return src, exc, msg


def job(kind, *args):
    if kind in GEN_W:
        src, exc, msg = _w(kind, *args)
    else:
        v, gs, rf, side = args
        src, exc, msg = generate(kind, 'py', v, gs=gs, rf=rf, side=side)
    T = dict(name=f'{kind} {args}', kind=kind, exc=f'{exc}: {msg}' if exc else '', imports=[], alias={'factorial': 'factorial'},
             sigs={}, other={'residual_equations.': [0, 0]}, default=[], optimized=[])
    defs = []
    if not exc:
        r, x, m = call(read, src)
        if x:
            T['exc'] = f'{x}: {m}'
        else:
            T['imports'], T['alias'], T['sigs'], defs = r
            if kind == 'dt':   # the residual module which is generated for the same order
                rs, x, m = _w('residual', args[0], 2)
                if x:
                    T['exc'] = f'{x}: {m}'
                else:
                    T['other'] = {f'residual_equations.{k}': v for k, v in read(rs)[2].items()}
            T['default'] = [n for n in T['sigs'] if 'optimized' not in n]
            T['optimized'] = [n[:-len('_optimized')] for n in T['sigs'] if n.endswith('_optimized')]
    return T, defs


def merge(parts):
    idx, rows, traces = {}, [], []
    for T, defs in parts:
        ev = []
        for d in defs:
            k = canon(d)
            if k not in idx:
                rows.append(d)
                idx[k] = len(rows)
            ev.append({'key': d['key'], 'def': idx[k]})
        traces.append(dict(T, events=ev))
    return {'defs': rows, 'traces': traces}


def describe(sh, t, e, cl):
    key = e['key'] if e else 'end'
    return f"python module {t['name']}|{key}|{cl['c']}|{canon(cl['d'])}", {'run': t['name'], 'definition': key, 'clause': cl['c'], 'detail': cl['d']}


def configs(tier):
    quick = tier == 'quick'
    both = (True, False)
    out = [('w', n) for n in range(1, 7)] + [('dt', n) for n in range(1, 7)] + [('residual', n, h) for n in range(0, 7) for h in (1, 2)]
    lim = (800, 200) if quick else (8000, 1000)
    for v in fam_fccpy.configs(*lim):
        out.append(('fcc', v, True, False, 'RHS'))
        if fcc_cost.cost(*v) <= 60:
            out += [('fcc', v, gs, rf, side) for gs in both for rf in both for side in ('RHS', 'LHS') if (gs, rf, side) != (True, False, 'RHS')]
    for v in fam_zpy.configs(tier):
        big = v[1] * v[3]
        if big <= 12 or not quick:
            out += [('eTz', v, True, False, side) for side in ('RHS', 'LHS')]
        if big <= 6 and v[0] <= 3 or not quick and big <= 12:
            out += [('eTz', v, False, rf, side) for rf in both for side in ('RHS', 'LHS')]
    return out


def check(c, tier):
    parts = []
    for st, v in pmap(job, configs(tier)):
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'generator did not finish or wrote something unreadable')
        else:
            parts.append(v)
    by = {}
    for p in parts:
        by.setdefault(p[0]['name'].rsplit(',', 1)[0].split(')')[0], []).append(p)
    groups = balance(list(by.values()), lambda ps: 5 + sum(len(d['toks']) for p in ps for d in p[1]), n=NPROC if tier == 'quick' else 4 * NPROC)
    shards = [merge([p for ps in g for p in ps]) for g in groups]
    validate(c, 'TracePyModule.tla', shards, describe)
    c.count(modules=len(parts), definitions=sum(len(p[1]) for p in parts), distinct_definitions=sum(len(s['defs']) for s in shards),
            tokens=sum(len(d['toks']) for s in shards for d in s['defs']))
    for p in parts[:: max(1, len(parts) // 10)]:
        c.sample({'run': p[0]['name'], 'definitions': len(p[1])})
