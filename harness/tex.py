"""Reading the equations termfactory writes as LaTeX.

A small recursive descent parser for the subset of LaTeX math the generators use.  The result is a
syntax tree which says what is printed; what should be printed is the business of the specification.
"""
import re
from fractions import Fraction
from math import factorial


class TexError(Exception):
    pass


_TOK = re.compile(r'\\[A-Za-z]+|\\.|[^\s]', re.S)


def strip_comments(s):
    return re.sub(r'(?<!\\)%[^\n]*', '', s)


def tokens(s):
    return _TOK.findall(s)


def integer_expression(toks):
    """product of integers and factorials: 2!3!, 3*2!, (2)(2), 12"""
    s = ''.join(toks)
    val = 1
    rest = s
    while rest:
        m = re.match(r'\((\d+)(!?)\)|(\d+)(!?)', rest)
        if not m:
            raise TexError(f'not a product of integers: {s!r}')
        n = int(m.group(1) or m.group(3))
        val *= factorial(n) if (m.group(2) or m.group(4)) else n
        rest = rest[m.end():]
        if rest.startswith('*'):
            rest = rest[1:]
            if not rest:
                raise TexError(f'not a product of integers: {s!r}')
    if s == '':
        raise TexError('empty integer')
    return val


class Parser:
    def __init__(self, s):
        self.t = tokens(strip_comments(s))
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        if x is None:
            raise TexError('unexpected end')
        self.i += 1
        return x

    def expect(self, x):
        y = self.next()
        if y != x:
            raise TexError(f'expected {x!r}, found {y!r}')

    def group(self):
        """tokens of a {...} group (or a single token)"""
        if self.peek() != '{':
            return [self.next()]
        self.next()
        depth, out = 1, []
        while True:
            x = self.next()
            if x == '{':
                depth += 1
            elif x == '}':
                depth -= 1
                if depth == 0:
                    return out
            out.append(x)

    def power(self):
        if self.peek() == '^':
            self.next()
            return integer_expression(self.group())
        return 1

    def labels(self, toks):
        """[(colour, character)] of a script"""
        p = Parser('')
        p.t = toks
        out = []
        while p.peek() is not None:
            x = p.next()
            if x in ('\\blue', '\\red', '\\magenta'):
                for c in p.group():
                    if len(c) != 1 or not c.isalnum():
                        raise TexError(f'label {c!r}')
                    out.append((x[1], c))
            elif x == ',':
                out.append(('', ','))
            elif x == '\\gamma' or (len(x) == 1 and x.isalnum()):
                out.append(('', x))
            else:
                raise TexError(f'label {x!r}')
        return out

    def scripts(self):
        up, low = None, None
        while self.peek() in ('^', '_'):
            x = self.next()
            g = self.labels(self.group())
            if x == '^':
                if up is not None:
                    raise TexError('two superscripts')
                up = g
            else:
                if low is not None:
                    raise TexError('two subscripts')
                low = g
        return up or [], low or []

    def sum(self, closing=None):
        """[(sign, [factor, ...]), ...]; an empty sum is []"""
        out = []
        sign = 1
        while True:
            x = self.peek()
            if x is None or x == closing or (x in ('\\Big', '\\right') and self.peek(1) == closing):
                return out
            if x in ('\\\\', '&'):
                self.next()
                continue
            if x in '+-':
                self.next()
                sign = 1 if x == '+' else -1
                if self._ends(closing):
                    raise TexError('sum ends with an operator')
                continue
            prod = self.product(closing)
            if out and sign is None:
                raise TexError('missing operator')
            out.append((1 if sign is None else sign, prod))
            sign = None

    def _ends(self, closing):
        k = 0
        while self.peek(k) in ('\\\\', '&'):
            k += 1
        x = self.peek(k)
        return x is None or x == closing or (x in ('\\Big', '\\right') and self.peek(k + 1) == closing)

    def product(self, closing):
        out = []
        while True:
            x = self.peek()
            if x is None or x in ('+', '-', '\\\\', '&') or x == closing:
                return out
            if x in ('\\Big', '\\right') and self.peek(1) == ')':
                return out
            if x == '\\,':
                self.next()
                continue
            out.append(self.factor())

    def factor(self):
        x = self.next()
        if x in ('\\Big', '\\left'):
            self.expect('(')
            s = self.sum(')')
            self.expect('\\Big' if x == '\\Big' else '\\right')
            self.expect(')')
            return ('group', s, self.power())
        if x == '(':
            s = self.sum(')')
            self.expect(')')
            return ('group', s, self.power())
        if x == '\\frac':
            n, d = integer_expression(self.group()), integer_expression(self.group())
            return ('num', Fraction(n, d))
        if x.isdigit():
            while self.peek() and self.peek().isdigit():
                x += self.next()
            return ('num', Fraction(int(x)))
        if x == 'f':
            return ('f', self.power())
        if x == '\\bar':
            if self.group() != ['f']:
                raise TexError('\\bar of something else than f')
            return ('fbar', self.power())
        if x == '\\mathds':
            if self.group() != ['1']:
                raise TexError('\\mathds')
            return ('one',)
        if x in ('\\bh', '\\bt', '\\bz', '\\bs', '\\bW'):
            u, lo = self.scripts()
            return ('op', x[2], u, lo)
        if x == '\\hat':
            g = self.group()
            if len(g) == 1 and g[0] in ('\\bh', '\\bt', '\\bz', '\\bs'):
                u, lo = self.scripts()
                return ('op', 'hat ' + g[0][2], u, lo)
            if g in (['S'], ['G']):
                u, lo = self.scripts()
                return ('op', 'hat ' + g[0], u, lo)
            raise TexError(f'\\hat{{{g}}}')
        if x == '\\textbf':
            g = self.group()
            u, lo = self.scripts()
            return ('op', ''.join(g), u, lo)
        if x == '\\dv':
            p = Parser('')
            p.t = self.group()
            inner = p.sum()
            if self.group() != ['\\tau'] or len(inner) != 1 or inner[0][0] != 1 or len(inner[0][1]) != 1:
                raise TexError('derivative')
            return ('dv', inner[0][1][0])
        if x == '\\delta':
            u, lo = self.scripts()
            return ('delta', u, lo)
        if x == 'i':
            return ('i',)
        if x == '\\sum':
            return ('sum',)
        if x == '\\varepsilon':
            return ('eps',)
        raise TexError(f'unexpected {x!r}')


def parse(s):
    p = Parser(s)
    r = p.sum()
    if p.peek() is not None:
        raise TexError(f'left over: {p.t[p.i:p.i + 5]}')
    return r


def expand(terms):
    """distribute products over sums: [(sign, flat factor list)]"""
    out = []
    for sign, prod in terms:
        acc = [(sign, [])]
        for f in prod:
            if f[0] == 'group' and f[2] == 1 and not _is_delta(f):
                inner = expand(f[1])
                acc = [(s * s2, fs + fs2) for s, fs in acc for s2, fs2 in inner]
            else:
                acc = [(s, fs + [f]) for s, fs in acc]
        out += acc
    return out


def _is_delta(f):
    return any(x[0] == 'delta' for _, p in f[1] for x in p)


def zero_script(labels):
    return labels == [('', '0')]


def op(f, electronic=False):
    """operator factor -> {'k', 'u', 'l'} with labels as [colour, code]; X_0 has none"""
    k, u, lo = f[1], f[2], f[3]
    if zero_script(lo) and not u:
        lo = []
    return {'k': k, 'u': [[c or 'p', ord(x)] for c, x in u], 'l': [[c or 'p', ord(x)] for c, x in lo]}


def omega(s):
    """(number of up, number of down) and the labels, in order"""
    s = s.strip()
    if s == '1':
        return [0, 0]
    m = re.fullmatch(r'(\\(?:up|down)\{[a-z]\})+', s)
    if not m:
        raise TexError(f'projection {s!r}')
    return [len(re.findall(r'\\up', s)), len(re.findall(r'\\down', s))]


def rational(fs, sign=1):
    c = Fraction(sign)
    for f in fs:
        if f[0] == 'num':
            c *= f[1]
    return c


def body(text):
    """everything after the preamble of a document"""
    if text.count('\\begin{document}') != 1 or text.rstrip().count('\\end{document}') != 1 or not text.rstrip().endswith('\\end{document}'):
        raise TexError('not one complete document')
    t = text.split('\\begin{document}')[1]
    i = t.find('\\clearpage')
    if i < 0:
        raise TexError('no equations')
    return t[i + len('\\clearpage'):]
