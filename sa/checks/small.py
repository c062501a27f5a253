"""Small arrays: value terms of arrays of known, small shape, evaluated element by element to rational functions.

The shape is a tuple of numbers; the pixels of an image are one pixel, so that an image of n bands has the shape (n, 1, 1).  A mask of
pixels is true: what is evaluated is a pixel that is valid."""
from fractions import Fraction
from functools import reduce
from itertools import product as cartesian
from ..terms import *
from ..terms import T
from ..lib import callname
from ..rows import POOL, Rat, rat, atom, num, WORK, TooBig


class Unknown(Exception):
    """The value is not one this domain has."""


class Nd:
    def __init__(self, shape, v):
        self.shape, self.v = tuple(shape), list(v)

    def __len__(self):
        return self.shape[0]

    def at(self, ix):
        k = 0
        for n, i in zip(self.shape, ix):
            k = k * n + i
        return self.v[k]


class Mask:
    """The pixel is selected; dims: number of pixel axes."""


MASK = Mask()
prod = lambda s: reduce(lambda a, b: a * b, s, 1)
indices = lambda shape: list(cartesian(*[range(n) for n in shape]))


def nd(x):
    """Python sequences and scalars as arrays."""
    if isinstance(x, Nd):
        return x
    if isinstance(x, (tuple, list)):
        xs = [nd(y) for y in x]
        if not xs:
            return Nd((0,), [])
        if len({y.shape for y in xs}) != 1:
            raise Unknown('ragged')
        return Nd((len(xs),) + xs[0].shape, [v for y in xs for v in y.v])
    if isinstance(x, Rat):
        return Nd((), [x])
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return Nd((), [rat(x)])
    raise Unknown(x)


def un(x):
    return x.v[0] if isinstance(x, Nd) and x.shape == () else x


def broadcast(a, b, f):
    a, b = nd(a), nd(b)
    r = max(len(a.shape), len(b.shape))
    sa, sb = (1,) * (r - len(a.shape)) + a.shape, (1,) * (r - len(b.shape)) + b.shape
    if any(x != y and 1 not in (x, y) for x, y in zip(sa, sb)):
        raise Unknown('shapes')
    shape = tuple(y if x == 1 else x for x, y in zip(sa, sb))
    A, B = Nd(sa, a.v), Nd(sb, b.v)
    pick = lambda s, ix: tuple(0 if n == 1 else i for n, i in zip(s, ix))
    return un(Nd(shape, [f(A.at(pick(sa, ix)), B.at(pick(sb, ix))) for ix in indices(shape)]))


def transpose(a):
    return Nd(a.shape[::-1], [a.at(ix[::-1]) for ix in indices(a.shape[::-1])])


def dot(a, b):
    a, b = nd(a), nd(b)
    if not a.shape or not b.shape:
        return broadcast(a, b, lambda x, y: x * y)
    n = a.shape[-1]
    ax = max(len(b.shape) - 2, 0)
    if b.shape[ax] != n:
        raise Unknown('dot shapes')
    sb = b.shape[:ax] + b.shape[ax + 1:]
    out = []
    for i in indices(a.shape[:-1]):
        for j in indices(sb):
            out.append(total(a.at(i + (k,)) * b.at(j[:ax] + (k,) + j[ax:]) for k in range(n)))
    return un(Nd(a.shape[:-1] + sb, out))


def total(xs):
    r = rat(0)
    for x in xs:
        r = r + x
    return r


def reduce_axis(a, axis):
    a = nd(a)
    if axis is None:
        return total(a.v)
    axis = axis % len(a.shape)
    s = a.shape[:axis] + a.shape[axis + 1:]
    return un(Nd(s, [total(a.at(ix[:axis] + (k,) + ix[axis:]) for k in range(a.shape[axis])) for ix in indices(s)]))


PRIME = (1 << 61) - 1


def mark(r):
    """The value at one point of a prime field: values that differ are different functions."""
    at = lambda a: pow(a + 1000003, 5, PRIME) * 7919 + 104729
    def p(x):
        v = 0
        for m, c in x.items():
            q = c.numerator * pow(c.denominator, -1, PRIME) if isinstance(c, Fraction) else c
            for a in m:
                q = q * at(a) % PRIME
            v += q
        return v % PRIME
    d = p(r.d)
    return p(r.n) * pow(d, -1, PRIME) % PRIME if d else None


class Small:
    """leaf(term) -> Nd | Rat | None: the inputs."""

    def __init__(self, E, leaf):
        self.E, self.leaf, self.memo, self.named = E, leaf, {}, []
        self.negative = lambda key: False       # sign of an irreducible scalar

    def sign(self, q):
        """Sign of a number or multiple of one scalar, else None."""
        c = q.const()
        if c is not None:
            return (c > 0) - (c < 0)
        if q.size() == 2 and set(q.d) == {()} and len(next(iter(q.n))) == 1:
            m, c = next(iter(q.n.items()))
            return (1 if c > 0 else -1) * (-1 if self.negative(POOL.keys[m[0]]) else 1)
        return None

    # large quotients and square roots become scalars of their own, by equality
    def name(self, kind, r):
        f = mark(r)
        for k, x, a, m in self.named:
            if k == kind and m == f and x == r:
                return a
        a = atom((kind, len(self.named), id(self)))
        self.named.append((kind, r, a, f))
        return a

    def sqrt(self, r):
        c = r.const()
        if c is not None and c >= 0:
            q = Fraction(c) ** Fraction(1, 2)
            if isinstance(q, Fraction) or float(q).is_integer():
                return rat(q if isinstance(q, Fraction) else int(q))
        for k, x, a, _ in self.named:
            if k == 'quot' and a.n == r.n and a.d == r.d:
                r = x
                break
        return self.name('sqrt', r)

    def div(self, a, b):
        if not b.n:
            raise Unknown('division by zero')
        r = a / b
        return self.name('quot', r) if r.size() > 8 else r

    def val(self, t):
        if not isinstance(t, T):
            raise Unknown(t)
        if t.id in self.memo:
            v = self.memo[t.id]
            if isinstance(v, Unknown):
                raise v
            return v
        try:
            v = self.val_(t)
        except Unknown as ex:
            self.memo[t.id] = ex
            raise
        except TooBig as ex:
            self.memo[t.id] = Unknown(str(ex))
            raise self.memo[t.id]
        self.memo[t.id] = v
        return v

    def val_(self, t):
        WORK[0] = 0
        v = self.leaf(t)
        if v is not None:
            return v
        k = t.k
        if k == 'const':
            v = t.a[1]
            if isinstance(v, bool):
                return MASK if v else rat(0)
            if isinstance(v, (int, float)):
                if num(v) is None:
                    return atom(('s', repr(v)))
                return rat(v)
            raise Unknown(v)
        if k == 'obj':
            f = self.E.freeze(t)
            if f is t:
                raise Unknown(t)
            return self.val(f)
        if k in ('tuple', 'list'):
            return nd([self.val(x) for x in t.a])
        if k == 'sym':
            return atom(('s', t.a[0]))
        if k == 'after':
            init = nd(self.val(t.a[2]))
            if not init.shape:
                return atom(('after', t.id))
            # deviation products are symmetric
            sq = len(init.shape) == 2 and init.shape[0] == init.shape[1]
            return Nd(init.shape, [atom(('after', t.id, tuple(sorted(ix)) if sq else ix)) for ix in indices(init.shape)])
        if k == 'ite':
            c = self.cond(t.a[0])
            if c is not None:
                return self.val(t.a[1] if c else t.a[2])
            if t.a[0].k in ('bin', 'un', 'call') and self.val(t.a[0]) is MASK:
                return self.val(t.a[1])     # elements selected by a mask
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if self.same(a, b):
                return a
            raise Unknown(f'undecided: {t.a[0]}'[:80])
        if k in ('cmp', 'not', 'and', 'or', 'truth', 'isinst'):
            return MASK
        if k == 'un':
            if t.a[0] == '-':
                return broadcast(0, self.val(t.a[1]), lambda a, b: a - b)
            v = self.val(t.a[1])
            if v is MASK:
                return MASK
            raise Unknown(t.a[0])
        if k == 'bin':
            return self.binop(t.a[0], self.val(t.a[1]), self.val(t.a[2]))
        if k == 'upd':
            return self.update(self.val(t.a[0]), t.a[1], self.val(t.a[2]))
        if k == 'sub':
            if t.a[0].k == 'attr' and t.a[0].a[1] == 'shape':
                i = t.a[1].a[1] if is_const(t.a[1]) else None
                s = self.shape(t.a[0].a[0])
                if isinstance(i, int):
                    return rat(s[i])
                raise Unknown('shape')
            b = t.a[0]
            if b.k == 'call' and callname(b) == 'numpy.linalg.lstsq' and t.a[1] is const(0):
                A, B = nd(self.val(b.a[1][0])), nd(self.val(b.a[1][1]))
                s = (A.shape[1],) + B.shape[1:]
                return Nd(s, [atom(('lstsq', b.id, ix, s)) for ix in indices(s)])
            if b.k == 'call' and callname(b) in ('numpy.where', 'numpy.nonzero', '.nonzero') and len(b.a[1]) == (b.a[0].k != 'attr') and t.a[1] is const(0):
                return self.true(b.a[1][0] if b.a[1] else b.a[0].a[0])
            return self.index(self.val(t.a[0]), t.a[1])[0]
        if k == 'attr':
            if t.a[1] == 'T':
                return transpose(nd(self.val(t.a[0])))
            if t.a[1] == 'shape':
                return nd([rat(n) for n in self.shape(t.a[0])])
            if t.a[1] == 'size':
                return rat(prod(self.shape(t.a[0])))
            if t.a[1] == 'ndim':
                return rat(len(self.shape(t.a[0])))
        if k == 'call':
            return self.call(t)
        raise Unknown(k)

    def true(self, x):
        rs = self.compare(x)
        if rs is None or None in rs:
            raise Unknown('undecided elements')
        ix = [i for i, r in enumerate(rs) if r]
        return Nd((len(ix),), [rat(i) for i in ix])

    def shape(self, t):
        v = self.val(t)
        if v is MASK:
            raise Unknown('mask')
        return nd(v).shape

    def same(self, a, b):
        if a is MASK or b is MASK:
            return a is b
        a, b = nd(a), nd(b)
        return a.shape == b.shape and all(x == y for x, y in zip(a.v, b.v))

    def cond(self, c):
        """Whether a condition holds: weights are not negative, and no vector of coefficients is zero by chance."""
        if c.k == 'const':
            return bool(c.a[1])
        if c.k == 'not':
            r = self.cond(c.a[0])
            return None if r is None else not r
        if c.k in ('and', 'or'):
            rs = [self.cond(x) for x in c.a]
            stop = c.k == 'or'
            return stop if stop in rs else None if None in rs else not stop
        if c.k == 'truth':
            return self.cond(c.a[0])
        if c.k == 'call' and callname(c) in ('numpy.any', 'numpy.all', '.any', '.all', 'builtins.any', 'builtins.all'):
            x = c.a[1][0] if c.a[1] else c.a[0].a[0]
            rs = self.compare(x)
            f = any if callname(c)[-3:] == 'any' else all
            return None if rs is None or None in rs else f(rs)
        if c.k == 'cmp' and c.a[0] in ('is', 'is not') and NONE in c.a[1:]:
            try:
                self.val(c.a[1] if c.a[2] is NONE else c.a[2])
                return c.a[0] == 'is not'
            except Unknown:
                return None
        rs = self.compare(c)
        return rs[0] if rs and len(rs) == 1 else None

    def compare(self, x):
        if x.k == 'not':
            rs = self.compare(x.a[0])
            return None if rs is None else [None if r is None else not r for r in rs]
        try:
            if x.k != 'cmp':
                v = self.val(x)
                return None if v is MASK else [bool(q.n) for q in nd(v).v]
            op = x.a[0]
            d = nd(broadcast(self.val(x.a[1]), self.val(x.a[2]), lambda a, b: a - b))
        except Unknown:
            return None
        out = []
        for q in d.v:
            c, sg = q.const(), self.sign(q)
            if sg is None or c is None and op in ('==', '!='):
                out.append(op == '!=' if op in ('==', '!=') else None)
            else:
                out.append({'<': sg < 0, '<=': sg <= 0, '==': sg == 0, '!=': sg != 0, '>': sg > 0, '>=': sg >= 0}.get(op))
        return out

    def binop(self, op, a, b):
        if a is MASK or b is MASK:
            if op in '&|^':
                return MASK
            raise Unknown('mask arithmetic')
        if op == '@':
            return dot(a, b)
        if op == '**':
            e = nd(b).v[0].const() if nd(b).shape == () else None
            if e == Fraction(1, 2):
                return self.each(a, self.sqrt)
            if e is None or e.denominator != 1 or not 0 <= e <= 4:
                raise Unknown('power')
            return self.each(a, lambda x: reduce(lambda p, q: p * q, [x] * int(e), rat(1)))
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': self.div}.get(op)
        if f is None:
            raise Unknown(op)
        return broadcast(a, b, f)

    @staticmethod
    def each(a, f):
        a = nd(a)
        return un(Nd(a.shape, [f(x) for x in a.v]))

    # ---------------------------------------------------------------- indexing
    def keys(self, shape, k):
        """Per result axis lists of source indices: [(kind, [indices])] for each source axis, kind in 'int', 'axis', 'new'."""
        ix = k.k == 'call' and callname(k) == 'numpy.ix_'
        ks = [NONE if x.k == 'ext' and x.a[0] == 'numpy.newaxis' else x for x in (k.a[1] if ix else k.a if k.k == 'tuple' else [k])]
        out, ax, lists = [], 0, 0
        n_used = 0
        for x in ks:
            if x is NONE:
                continue
            n_used += 1
        for i, x in enumerate(ks):
            if x is NONE:
                out.append(('new', [0]))
                continue
            if is_const(x) and x.a[1] is Ellipsis:
                for _ in range(len(shape) - (n_used - 1)):
                    out.append(('axis', list(range(shape[ax]))))
                    ax += 1
                continue
            if ax >= len(shape):
                raise Unknown('too many indices')
            n = shape[ax]
            if x.k == 'slice':
                b = []
                for q in x.a:
                    if q is NONE:
                        b.append(None)
                        continue
                    c = nd(self.val(q)).v[0].const()
                    if c is None or c.denominator != 1:
                        raise Unknown('slice')
                    b.append(int(c))
                out.append(('axis', list(range(n))[slice(*b)]))
                ax += 1
                continue
            v = self.val(x)
            if v is MASK and shape[ax:ax + 1] != (1,):
                v = self.true(x)
            if v is MASK:
                # the axes of pixels
                m = 2 if shape[ax:ax + 2] == (1, 1) else 1
                if shape[ax:ax + m] != (1,) * m:
                    raise Unknown('mask')
                out.append(('axis', [0]))
                ax += 1
                if m == 2:
                    out.append(('int', [0]))
                    ax += 1
                continue
            v = nd(v)
            cs = [q.const() for q in v.v]
            if any(c is None or c.denominator != 1 for c in cs) or len(v.shape) > 1:
                raise Unknown('index')
            cs = [int(c) + (n if c < 0 else 0) for c in cs]
            if any(not 0 <= c < n for c in cs):
                raise Unknown('index out of range')
            lists += bool(v.shape)
            if lists > 1 and not ix:
                raise Unknown('paired indices')
            out.append(('axis' if v.shape else 'int', cs))
            ax += 1
        for n in shape[ax:]:
            out.append(('axis', list(range(n))))
        return out

    def index(self, a, k):
        if a is MASK:
            return MASK, None
        a = nd(a)
        ks = self.keys(a.shape, k)
        shape = tuple(len(v) for kind, v in ks if kind != 'int')
        src = []
        for ix in cartesian(*[v for _, v in ks]):
            src.append(tuple(i for i, (kind, _) in zip(ix, ks) if kind != 'new'))
        return un(Nd(shape, [a.at(s) for s in src])), (shape, src)

    def update(self, a, k, v):
        if a is MASK or v is MASK:
            raise Unknown('mask')
        a = nd(a)
        shape, src = self.index(a, k)[1]
        if v.__class__ is Nd:
            while len(v.shape) > len(shape) and v.shape[0] == 1:
                v = Nd(v.shape[1:], v.v)
        b = nd(broadcast(Nd(shape, [rat(0)] * len(src)), v, lambda x, y: y))
        if b.shape != tuple(shape):
            raise Unknown(f'assigned shape {b.shape} to {shape} of {a.shape} {k}'[:300])
        new = dict(zip(src, b.v))
        return Nd(a.shape, [new.get(ix, a.at(ix)) for ix in indices(a.shape)])

    # ---------------------------------------------------------------- calls
    def call(self, t):
        n = callname(t)
        f, args, kw = t.a[0], list(t.a[1]), dict(t.a[2])
        if n.startswith('.'):
            args = [f.a[0]] + args
            n = n[1:]
        elif n.startswith('numpy.') or n.startswith('builtins.'):
            n = n.split('.')[-1] if n.count('.') == 1 or n == 'numpy.linalg.norm' else n
        else:
            raise Unknown(n)
        arg = lambda i, key, d=None: self.val(args[i]) if len(args) > i else self.val(kw[key]) if key in kw else d
        ints = lambda v: tuple(int(c) for c in [q.const() for q in nd(v).v] if c is not None and c.denominator == 1)
        if n in ('zeros', 'ones', 'empty', 'full'):
            s = ints(arg(0, 'shape'))
            if len(s) != len(nd(arg(0, 'shape')).v):
                raise Unknown('shape')
            try:
                fill = nd(arg(1, 'fill_value')).v[0] if n == 'full' else rat(1 if n == 'ones' else 0)
            except Unknown:
                fill = atom(('fill', t.id))
            return Nd(s, [fill] * prod(s))
        if n in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
            a = nd(arg(0, 'a'))
            return Nd(a.shape, [rat(n == 'ones_like')] * len(a.v))
        if n in ('eye', 'identity'):
            m = ints(arg(0, 'N'))[0]
            return Nd((m, m), [rat(int(i == j)) for i, j in indices((m, m))])
        if n in ('array', 'asarray', 'copy', 'asanyarray', 'ascontiguousarray', 'astype', 'tolist', 'float', 'list', 'tuple', 'view', 'clip', 'maximum'):
            v = arg(0, 'a')
            if n in ('clip', 'maximum') and (len(args) < 2 or nd(self.val(args[1])).v[0].const() != 0 or len(args) > 2 and args[2] is not NONE or n == 'clip' and set(kw) - {'out'}):
                raise Unknown(n)
            if n in ('clip', 'maximum'):
                return self.each(v, lambda q: rat(0) if self.sign(q) == -1 else q)
            return v if v is MASK else un(nd(v))
        if n == 'len':
            return rat(nd(arg(0, 'x')).shape[0])
        if n in ('flatten', 'ravel'):
            v = arg(0, 'a')
            return v if v is MASK else Nd((len(nd(v).v),), nd(v).v)
        if n == 'squeeze':
            a = nd(arg(0, 'a'))
            return un(Nd(tuple(x for x in a.shape if x != 1), a.v))
        if n in ('transpose', 'T'):
            return transpose(nd(arg(0, 'a')))
        if n == 'reshape':
            a = arg(0, 'a')
            if a is MASK:
                return MASK
            a = nd(a)
            s = ints(self.val(args[1])) if len(args) == 2 else tuple(ints(self.val(x))[0] for x in args[1:])
            if -1 in s:
                rest = prod(x for x in s if x != -1)
                s = tuple(len(a.v) // rest if x == -1 else x for x in s)
            if prod(s) != len(a.v):
                raise Unknown('reshape')
            return Nd(s, a.v)
        if n in ('dot', 'matmul', 'inner'):
            return dot(arg(0, 'a'), arg(1, 'b'))
        if n == 'outer':
            a, b = nd(arg(0, 'a')), nd(arg(1, 'b'))
            return Nd((len(a.v), len(b.v)), [x * y for x in a.v for y in b.v])
        if n in ('sum', 'mean'):
            a = nd(arg(0, 'a'))
            ax = kw.get('axis', args[1] if len(args) > 1 else NONE)
            ax = None if ax is NONE else ints(self.val(ax))[0]
            s = reduce_axis(a, ax)
            if n == 'mean':
                s = self.each(s, lambda x: x / rat(len(a.v) if ax is None else a.shape[ax]))
            return s
        if n == 'sqrt':
            return self.each(arg(0, 'x'), self.sqrt)
        if n == 'square':
            return self.each(arg(0, 'x'), lambda x: x * x)
        if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide'):
            return self.binop({'add': '+', 'subtract': '-', 'multiply': '*'}.get(n, '/'), arg(0, 'x1'), arg(1, 'x2'))
        if n in ('diag', 'diagonal'):
            a = nd(arg(0, 'v'))
            return Nd((a.shape[0],), [a.at((i, i)) for i in range(a.shape[0])])
        if n in ('concatenate', 'vstack', 'hstack', 'stack', 'r_'):
            xs = [nd(self.val(x)) for x in args[0].a] if args[0].k in ('tuple', 'list') else [nd(x) for x in rows_of(nd(self.val(args[0])))]
            ax = ints(arg(1, 'axis', rat(0)))[0]
            if n == 'vstack':
                xs = [Nd((1,) + x.shape, x.v) if len(x.shape) == 1 else x for x in xs]
            if n == 'hstack':
                ax = 0 if len(xs[0].shape) == 1 else 1
            if n == 'stack':
                xs, ax = [Nd((1,) + x.shape, x.v) for x in xs], 0
            return concat(xs, ax)
        if n in ('logical_not', 'logical_and', 'logical_or', 'isnan', 'isfinite', 'all', 'any', 'bool'):
            return MASK
        if n == 'where' and len(args) == 3:
            a, b = nd(self.val(args[1])), nd(self.val(args[2]))
            if self.val(args[0]) is not MASK:
                raise Unknown('where')
            rs = self.compare(args[0])
            if rs is None or None in rs:
                raise Unknown('undecided elements')
            shape = nd(broadcast(a, b, lambda x, y: x)).shape
            if prod(shape) != len(rs):
                raise Unknown('where shapes')
            pa, pb = nd(broadcast(a, b, lambda x, y: x)), nd(broadcast(a, b, lambda x, y: y))
            return un(Nd(shape, [x if r else y for r, x, y in zip(rs, pa.v, pb.v)]))
        if n in ('flatnonzero', 'argwhere'):
            return self.true(args[0])
        if n in ('range', 'arange'):
            b = [ints(self.val(x))[0] for x in args]
            return Nd((len(range(*b)),), [rat(i) for i in range(*b)])
        raise Unknown(n)


def rows_of(a):
    s = a.shape[1:]
    return [Nd(s, [a.at((i,) + ix) for ix in indices(s)]) for i in range(a.shape[0])]


def concat(xs, ax):
    s = list(xs[0].shape)
    s[ax] = sum(x.shape[ax] for x in xs)
    out = []
    for ix in indices(s):
        i, k = ix[ax], 0
        while i >= xs[k].shape[ax]:
            i -= xs[k].shape[ax]
            k += 1
        out.append(xs[k].at(ix[:ax] + (i,) + ix[ax + 1:]))
    return Nd(s, out)
