"""the combinatorial helpers every generator shares: calls recorded and validated against Comb."""
import itertools
import math
from fractions import Fraction
import numpy
from core import *

FUNCS = {'partitions': 'generate_partitions_of_n', 'mixed': 'generate_mixed_partitions_of_n', 'linked': 'generate_linked_disconnected_partitions_of_n',
         'unlinked': 'generate_un_linked_disconnected_partitions_of_n', 'connected': 'genereate_connected_partitions_of_n',
         'orders': 'unique_permutations'}


class Tensor:
    """a formal sum of transposes of one tensor"""
    def __init__(self, terms):
        self.terms = dict(terms)

    def __add__(self, o):
        t = dict(self.terms)
        for k, v in o.terms.items():
            t[k] = t.get(k, 0) + v
        return Tensor({k: v for k, v in t.items() if v})

    def __mul__(self, x):
        return Tensor({k: v * Fraction(x) for k, v in self.terms.items()})

    def __truediv__(self, x):
        return self * (1 / Fraction(x))

    __rmul__ = __mul__

    def transpose(self, axes):
        axes = tuple(axes)
        return Tensor({tuple(k[a] for a in axes): v for k, v in self.terms.items()})


class Numpy:
    @staticmethod
    def zeros_like(t, dtype=None):
        return Tensor({})

    @staticmethod
    def transpose(t, axes):
        return t.transpose(axes)

    def __getattr__(self, name):
        raise NotImplementedError(f'numpy.{name} has no meaning here')


def symmetrizer(max_order):
    src, exc, msg = call(mod('helper_funcs').build_symmetrizing_function, max_order)
    if exc:
        return None, f'{exc}: {msg}'
    fs = []
    for np in (Numpy(), numpy):
        ns = {'np': np, 'it': itertools, 'itertools': itertools, 'math': math}
        _, exc, msg = call(exec, src, ns)
        if exc or 'symmetrize_tensor' not in ns:
            return None, f'{exc}: {msg}'
        fs.append(ns['symmetrize_tensor'])

    def f(n):
        """the transposes whose sum the function returns, with their coefficients"""
        r, exc, msg = call(fs[0], Tensor({tuple(range(n + 2)): Fraction(1)}), n)
        if not exc and isinstance(r, Tensor):
            return r.terms, exc, msg
        # written with other operations than a formal sum knows: apply it to a unit tensor
        k = max(n, 1)
        u = numpy.zeros(((2, 2) if n < 7 else (1, 2)) + (k,) * n, dtype=complex)
        at = (0, 1) + tuple(range(n))
        u[at] = 1
        r, exc, msg = call(fs[1], u, n)
        if exc:
            return {}, exc, msg
        terms = {}
        for i in numpy.argwhere(r):
            i = tuple(int(x) for x in i)
            terms[i[:2] + tuple(x + 2 for x in i[2:])] = Fraction(float(r[i].real)).limit_denominator(10**6)
        return terms, '', ''
    return f, ''


def job(name):
    h = mod('helper_funcs')
    ev = []
    fn, top = name
    if fn == 'symmetrize':
        if not hasattr(h, 'build_symmetrizing_function'):
            return {'name': str(name), 'events': []}
        f, exc = symmetrizer(top)
        for n in range(0, top + 1):
            e = {'key': f'{fn} {n}', 'fn': fn, 'arg': n, 'res': [], 'exc': exc}
            if not exc:
                r, x, m = f(n)
                e['exc'] = f'{x}: {m}' if x else ''
                e['res'] = [[list(k), [v.numerator, v.denominator]] for k, v in sorted(r.items())]
            ev.append(e)
        return {'name': str(name), 'events': ev}
    f = getattr(h, FUNCS[fn], None)
    if f is None:
        return {'name': str(name), 'events': []}
    args = range(1, top + 1)
    if fn == 'orders':
        p = getattr(h, FUNCS['partitions'])
        args = [tuple(x) for n in range(1, top + 1) for x in p(n) if len(x) <= 6] + [(), (1, 2, 1), (2, 2, 3, 3, 1), (3, 1, 2, 3, 1, 2)]
    for a in args:
        r, x, m = call(f, a)
        e = {'key': f'{fn} {a}', 'fn': fn, 'arg': list(a) if fn == 'orders' else a, 'res': [], 'exc': f'{x}: {m}' if x else ''}
        if not x:
            e['res'] = list(r) if fn == 'connected' else [list(q) for q in r]
        ev.append(e)
    return {'name': str(name), 'events': ev}


def describe(sh, t, e, cl):
    return f"helper {e['key']}|{cl['c']}|{canon(cl['d'])}", {'call': e['key'], 'clause': cl['c'], 'detail': cl['d']}


def check(c, tier):
    top = 9 if tier == 'quick' else 13
    runs = [(fn, top) for fn in FUNCS if fn != 'orders'] + [('orders', 8 if tier == 'quick' else 9)] + [('symmetrize', m) for m in range(1, 7 if tier == 'quick' else 8)]
    traces = []
    for st, v in pmap(job, [(r,) for r in runs]):
        if st == 'timeout':
            c.violation(f'timeout|{v}', 'helper did not finish')
        else:
            traces.append(v)
    validate(c, 'TraceComb.tla', [{'traces': [t]} for t in traces], describe)
    c.count(calls=sum(len(t['events']) for t in traces))
    for t in traces:
        c.sample({'run': t['name'], 'calls': len(t['events'])})
