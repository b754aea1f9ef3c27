"""Symbolic execution of the Python modules which termfactory generates.

A generated module is executed against stand-ins for numpy and opt_einsum.  Tensors are formal sums
of einsum terms over named operands, so executing a generated function yields exactly the equation it
encodes: no text of the generated file is inspected, only what running it does.
"""
import builtins
import math
from fractions import Fraction

A_DIM, N_DIM = 3, 5   # number of surfaces / modes: distinct, so that axis mix-ups are shape errors


class Malformed(Exception):
    """The generated code asked for something numpy would reject (shapes, labels, operands)."""


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        raise Malformed('boolean used as coefficient')
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        f = Fraction(x).limit_denominator(10 ** 7)
        if x == 0:
            return Fraction(0)
        if abs(float(f) - x) > 1e-11 * abs(x):
            raise Malformed(f'coefficient {x!r} is not a small rational')
        return f
    raise Malformed(f'unsupported coefficient {x!r}')


class Tensor:
    """formal sum of terms; term = (subscripts, (operand name, ...))"""
    __slots__ = ('shape', 'terms', 'sym', 'leaf', 'view')   # view: the input whose memory this shares
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, shape, terms=None, sym=0, leaf=None):
        self.shape = tuple(shape)
        self.terms = {} if terms is None else terms
        self.sym = sym
        self.leaf = leaf
        self.view = leaf

    # -- helpers
    def _merge(self, other, sign):
        if isinstance(other, (int, float)) and other == 0:
            return dict(self.terms), self.sym
        if not isinstance(other, Tensor):
            raise Malformed(f'cannot add {type(other).__name__} to a tensor')
        if other.shape != self.shape and other.shape != ANY:
            raise Malformed(f'adding shape {other.shape} to shape {self.shape}')
        out = dict(self.terms)
        for k, v in other.terms.items():
            out[k] = out.get(k, 0) + sign * v
        if self.sym == other.sym:
            sym = self.sym
        elif not self.terms:
            sym = other.sym
        elif not other.terms:
            sym = self.sym
        else:
            sym = -1
        return out, sym

    def __add__(self, other):
        t, s = self._merge(other, 1)
        return Tensor(self.shape, t, s)

    __radd__ = __add__

    def __sub__(self, other):
        t, s = self._merge(other, -1)
        return Tensor(self.shape, t, s)

    def __rsub__(self, other):
        return (-self) + other

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __mul__(self, c):
        f = to_fraction(c)
        return Tensor(self.shape, {k: v * f for k, v in self.terms.items()}, self.sym)

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1 / to_fraction(c))

    def __iadd__(self, other):
        if self.view:
            raise Malformed(f'input {self.view} is modified in place')
        self.terms, self.sym = self._merge(other, 1)
        return self

    def __isub__(self, other):
        if self.view:
            raise Malformed(f'input {self.view} is modified in place')
        self.terms, self.sym = self._merge(other, -1)
        return self

    def __imul__(self, c):
        if self.view:
            raise Malformed(f'input {self.view} is modified in place')
        self.terms = (self * c).terms
        return self

    def __itruediv__(self, c):
        return self.__imul__(1 / to_fraction(c))

    def copy(self):
        return Tensor(self.shape, dict(self.terms), self.sym)


ANY = ('any',)   # shape of the result of an expression without subscripts
LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def leaf(name, shape):
    s = LET[:len(shape)]
    return Tensor(shape, {(f'{s}->{s}', (name,)): Fraction(1)}, 0, leaf=name)


def einsum(subs, *ops, **kw):
    if not isinstance(subs, str):
        raise Malformed('einsum without a subscript string')
    s = subs.replace(' ', '')
    if s.count('->') != 1:
        raise Malformed(f'subscripts {subs!r} have no explicit output')
    ins, out = s.split('->')
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise Malformed(f'{subs!r} called with {len(ops)} operands')
    dim = {}
    for lab, op in zip(ins, ops):
        if not isinstance(op, Tensor) or op.leaf is None:
            raise Malformed(f'operand of {subs!r} is not one of the inputs: {type(op).__name__}')
        if len(lab) != len(op.shape):
            raise Malformed(f'{lab!r} labels operand {op.leaf} which has {len(op.shape)} axes')
        for c, d in zip(lab, op.shape):
            if not c.isalpha():
                raise Malformed(f'bad label {c!r} in {subs!r}')
            if dim.setdefault(c, d) != d:
                raise Malformed(f'label {c!r} in {subs!r} runs over {dim[c]} and {d}')
    if len(set(out)) != len(out) or any(c not in dim for c in out):
        raise Malformed(f'bad output labels in {subs!r}')
    r = Tensor(tuple(dim[c] for c in out), {(s, tuple(o.leaf for o in ops)): Fraction(1)})
    if len(ops) == 1 and sorted(ins[0]) == sorted(out):     # nothing is summed: numpy returns a view
        r.view = ops[0].leaf
    return r


class _NP:
    complex = complex
    complex128 = complex
    float64 = float

    @staticmethod
    def zeros(shape, dtype=None, **kw):
        return Tensor(shape if isinstance(shape, (tuple, list)) else (shape,))

    @staticmethod
    def zeros_like(x, **kw):
        return Tensor(x.shape)

    @staticmethod
    def einsum(subs, *ops, **kw):
        return einsum(subs, *ops, **kw)


class Expr:
    """what oe.contract_expression returns"""

    def __init__(self, subs, shapes):
        self.uses = 0
        if not isinstance(subs, str):
            raise Malformed('contract_expression without a subscript string')
        self.subs, self.shapes = subs, [tuple(s) for s in shapes]
        ins = subs.replace(' ', '').split('->')[0].split(',')
        if len(ins) != len(shapes) or any(len(i) != len(s) for i, s in zip(ins, self.shapes)):
            raise Malformed(f'contract_expression {subs!r} for shapes {self.shapes}')

    def __call__(self, *ops, **kw):
        self.uses += 1
        got = [o.shape if isinstance(o, Tensor) else None for o in ops]
        if got != self.shapes:
            raise Malformed(f'expression {self.subs!r} compiled for {self.shapes} is applied to {got}')
        return einsum(self.subs, *ops)


class Unlabelled:
    """a contract_expression which was given shapes but no subscripts: opt_einsum would refuse it.
    Only what it is applied to can be followed."""
    used = False

    def __init__(self, shapes):
        Unlabelled.used = True
        self.uses = 0
        self.shapes = [tuple(s) for s in shapes]

    def __call__(self, *ops, **kw):
        self.uses += 1
        got = [o.shape if isinstance(o, Tensor) else None for o in ops]
        if got != self.shapes:
            raise Malformed(f'expression compiled for {self.shapes} is applied to {got}')
        return Tensor(ANY, {('?', tuple(o.leaf for o in ops)): Fraction(1)})


class _OE:
    @staticmethod
    def contract_expression(subs, *shapes, **kw):
        if isinstance(subs, tuple):
            return Unlabelled((subs,) + shapes)
        return Expr(subs, shapes)

    @staticmethod
    def contract(subs, *ops, **kw):
        return einsum(subs, *ops)


class _Log:
    def __getattr__(self, name):
        return lambda *a, **k: None


def symmetrize_tensor(N, tensor, order):
    if N != N_DIM:
        raise Malformed('symmetrize_tensor called with a wrong number of modes')
    if not isinstance(tensor, Tensor):
        raise Malformed('symmetrize_tensor of something which is not a tensor')
    if order != len([d for d in tensor.shape if d == N_DIM]):
        raise Malformed(f'symmetrize_tensor(order={order}) of a tensor of shape {tensor.shape}')
    if tensor.sym == order:
        return tensor
    if tensor.sym != 0:
        raise Malformed('symmetrized twice')
    return Tensor(tensor.shape, dict(tensor.terms), order if order > 1 else 0)


class _Module:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def load(source, name='generated', modules=None):
    """execute a generated module; returns its namespace"""
    stubs = {
        'numpy': _NP(), 'opt_einsum': _OE(), 'math': math,
        'symmetrize': _Module(symmetrize_tensor=symmetrize_tensor),
        'log_conf': _Module(log=_Log()),
    }
    stubs.update(modules or {})

    def imp(mod, globals=None, locals=None, fromlist=(), level=0):
        if level and not mod:          # from . import x
            return _Module(**{f: stubs[f] for f in fromlist})
        if mod in stubs:
            return stubs[mod]
        if mod in ('itertools', 'functools', 'types', 'collections'):
            return builtins.__import__(mod, globals, locals, fromlist, 0)
        raise ImportError(f'generated code imports {mod!r}')

    b = dict(vars(builtins))
    b['__import__'] = imp
    ns = {'__builtins__': b, '__name__': name}
    exec(compile(source, name, 'exec'), ns)
    return ns


# ------------------------------------------------------------------ inputs
def elec(m_axes):
    return (A_DIM, A_DIM) + (N_DIM,) * m_axes


CC_TAGS = ['singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples', 'septuples', 'octuples']
H_TAGS = ['constant', 'linear', 'quadratic', 'cubic', 'quartic', 'quintic', 'sextic', 'septic', 'octic']


class Truncation:
    """truncation.<tag> flags: cc level, h level, (thermal) t and z levels"""

    def __init__(self, cc=0, h=0, t=None, z=None):
        d = self.__dict__
        for i, tag in enumerate(CC_TAGS, 1):
            d[tag] = cc >= i
            d['t_' + tag] = (cc if t is None else t) >= i
            d['z_' + tag] = (cc if z is None else z) >= i
            d['confirm_at_least_' + tag] = (lambda i=i, tag=tag: self._confirm(i))
        for i, tag in enumerate(H_TAGS):
            d[tag] = h >= i
            d['at_least_' + tag] = h >= i
            d['h_at_least_' + tag] = h >= i
            d['z_at_least_' + tag] = (cc if z is None else z) >= i
            d['t_at_least_' + tag] = (cc if t is None else t) >= i
        d['cc_truncation_order'] = cc
        d['confirmed'] = []

    def _confirm(self, i):
        self.confirmed.append(i)


class Ansatz:
    def __init__(self, name='', ground=True):
        self.VECI = name == 'VECI'
        self.VE_MIXED = name == 'VE_MIXED'
        self.VECC = name == 'VECC'
        self.ground_state = ground


class Args(dict):
    """h_args / t_args / z_args addressed by (m, n)"""

    def __init__(self, kind, electronic_axes):
        super().__init__()
        self.kind, self.e = kind, electronic_axes

    def __missing__(self, key):
        if not (isinstance(key, tuple) and len(key) == 2 and all(isinstance(k, int) and 0 <= k <= 9 for k in key)):
            raise Malformed(f'{self.kind}_args[{key!r}]')
        m, n = key
        self[key] = leaf(f'{self.kind}:{m}:{n}', (A_DIM,) * self.e + (N_DIM,) * (m + n))
        return self[key]


class EinTable:
    """interns einsum terms; entry = {'o': [[kind, m, n, [labels]]...], 'r': [labels]}"""

    def __init__(self, h_symmetric=False):
        self.idx, self.rows, self.h_symmetric = {}, [], h_symmetric

    def canon(self, key):
        """h is symmetric in its annihilation axes (its first n mode axes): put them in the order in which the
        other operands use them, so that calls which differ only there are the same call"""
        if not self.h_symmetric:
            return key
        subs, ops = key
        ins, out = subs.split('->')
        ins = ins.split(',')
        for j, op in enumerate(ops):
            k, m, n = op.split(':')
            n = int(n)
            if k == 'h' and n > 1:
                rest = ''.join(ins[:j] + ins[j + 1:]) + out
                low = ins[j][2:2 + n]
                low = ''.join(sorted(low, key=lambda c: (rest.find(c) if c in rest else 999, c)))
                # rename, so that also the names are in order
                tr = dict(zip(low, sorted(low)))
                if len(set(low)) == n and not (set(low) & set(out)):
                    ins[j] = ins[j][:2] + low + ins[j][2 + n:]
                    f = lambda t: ''.join(tr.get(c, c) for c in t)
                    ins = [f(t) for t in ins]
                    out = f(out)
        return ','.join(ins) + '->' + out, ops

    def add(self, key):
        i = self.idx.get(key)
        if i is None:
            subs, ops = key
            ins, out = subs.split('->')
            row = {'o': [], 'r': [ord(c) for c in out]}
            for lab, op in zip(ins.split(','), ops):
                k, m, n = op.split(':')
                row['o'].append({'k': k, 'm': int(m), 'n': int(n), 'l': [ord(c) for c in lab]})
            self.rows.append(row)
            i = self.idx[key] = len(self.rows)
        return i

    def table(self, tensor):
        """[[einsum index, numerator, denominator], ...]"""
        return [[i, c.numerator, c.denominator] for i, c in self.collect(tensor).items()]

    def collect(self, tensor):
        """{einsum index: coefficient}"""
        acc = {}
        for key, c in tensor.terms.items():
            i = self.add(self.canon(key))
            acc[i] = acc.get(i, 0) + c
        return {i: c for i, c in acc.items() if c != 0}
