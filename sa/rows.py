"""Algebra of coordinate arrays: the rows of an array valued term as rational functions of irreducible scalars.

An array is seen as its first axis only: `wxyz` is (x, y, z), every further axis is broadcast.  Values are a `Rat` (a scalar, or one row
of coordinates), or an `Arr` of them.  Two terms that compute the same rational function have equal normal forms."""
from __future__ import annotations
from fractions import Fraction
from .terms import *
from .terms import T
from .lib import callname, simp
from .engine import AnalysisError

LIM = 4000        # monomials after which a row becomes an irreducible scalar of its own (with canonical identity)


def num(x):
    if isinstance(x, bool):
        x = int(x)
    return Fraction(x) if isinstance(x, int) else Fraction(repr(x)) if isinstance(x, float) and x == x and abs(x) != float('inf') else None


class Pool:
    """Irreducible scalars by canonical key."""

    def __init__(self):
        self.ids, self.keys = {}, []

    def id(self, key):
        if key not in self.ids:
            self.ids[key] = len(self.keys)
            self.keys.append(key)
        return self.ids[key]


POOL = Pool()
COS, SIN = {}, {}           # atom id of cos(x) -> atom id of sin(x)


DIV0 = set()


class TooBig(AnalysisError):
    """The normal form of a value is too large to be computed."""


WORK = [0]
MAXWORK = 400_000


def pmul(p, q):
    r = {}
    WORK[0] += len(p) * len(q)
    if WORK[0] > MAXWORK:
        raise TooBig('the normal form of a value is too large')
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return trig(r)


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def trig(p):
    """cos(x)**2 = 1 - sin(x)**2"""
    if not COS:
        return p
    todo, out = list(p.items()), {}
    while todo:
        m, c = todo.pop()
        for i in range(len(m) - 1):
            if m[i] == m[i + 1] and m[i] in COS:
                rest = m[:i] + m[i + 2:]
                s = COS[m[i]]
                todo.append((rest, c))
                todo.append((tuple(sorted(rest + (s, s))), -c))
                break
        else:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        d = {(): Fraction(1)} if d is None else d
        if not n:
            d = {(): Fraction(1)}
        elif d:
            # cancel the common monomial, and make the leading coefficient of the denominator 1
            common = None
            for m in list(n) + list(d):
                cnt = {}
                for a in m:
                    cnt[a] = cnt.get(a, 0) + 1
                common = cnt if common is None else {a: min(c, cnt.get(a, 0)) for a, c in common.items() if a in cnt}
                if not common:
                    break
            if common:
                def red(p):
                    out = {}
                    for m, c in p.items():
                        left, l = dict(common), []
                        for a in m:
                            if left.get(a, 0):
                                left[a] -= 1
                            else:
                                l.append(a)
                        out[tuple(l)] = c
                    return out
                n, d = red(n), red(d)
            lead = d[max(d)]
            if lead != 1:
                n, d = {m: c / lead for m, c in n.items()}, {m: c / lead for m, c in d.items()}
        self.n, self.d = n, d

    def key(self):
        return ('r', tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))

    def __add__(self, o, s=1):
        o = rat(o)
        if self.d == o.d:
            return Rat(padd(self.n, o.n, s), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d), s), pmul(self.d, o.d))

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __mul__(self, o):
        o = rat(o)
        if DIV0 and (not self.n or not o.n):
            # 0 times an undefined value is undefined
            for x in (self, o):
                if not DIV0.isdisjoint(x.atoms()):
                    return x
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        o = rat(o)
        if not o.n:
            r = atom(('div0', self.key()))
            DIV0.update(r.atoms())
            return r
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n))

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return rat(o) - self

    def __eq__(self, o):
        o = rat(o)
        return self.n == o.n and self.d == o.d or pmul(self.n, o.d) == pmul(o.n, self.d)

    __hash__ = None

    def const(self):
        if set(self.d) == {()} and set(self.n) <= {()}:
            return self.n.get((), Fraction(0)) / self.d[()]
        return None

    def size(self):
        return len(self.n) + len(self.d)

    def close(self, o, tol=1e-9):
        """Equal up to rounding of the coefficients."""
        o = rat(o)
        a, b = pmul(self.n, o.d), pmul(o.n, self.d)
        return set(a) == set(b) and all(abs(a[m] - b[m]) <= tol * max(1, abs(a[m])) for m in a)

    def subst(self, m):
        """Replace irreducible scalars by other values."""
        def p(x):
            r = rat(0)
            for mon, c in x.items():
                t = rat(c)
                for a in mon:
                    t = t * (m[a] if a in m else Rat({(a,): Fraction(1)}))
                r = r + t
            return r
        return p(self.n) / p(self.d)

    def atoms(self):
        return {a for m in list(self.n) + list(self.d) for a in m}

    def __repr__(self):
        def p(x):
            return ' + '.join(('' if c == 1 and m else f'{float(c):g}' + ('*' if m else '')) + '*'.join(name(a) for a in m) for m, c in sorted(x.items())[:8]) or '0'
        return p(self.n) if self.d == {(): 1} else f'({p(self.n)}) / ({p(self.d)})'


def name(a):
    k = POOL.keys[a]
    return k[1] if k[0] == 's' else f'{k[1]}(..)' if k[0] == 'fn' else f'a{a}'


def rat(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, Lazy):
        return x.rat()
    if isinstance(x, (int, float, Fraction)):
        f = x if isinstance(x, Fraction) else num(x)
        return Rat({(): f} if f else {})
    raise TypeError(x)


def atom(key):
    return Rat({(POOL.id(key),): Fraction(1)})


def scalar(nm):
    """Scalar symbol."""
    return atom(('s', nm))


PI = scalar('pi')


def fn(f, x):
    """Irreducible function of a scalar."""
    x = rat(x)
    if f == 'radians':
        return x * PI / rat(180)
    if f == 'degrees':
        return x * rat(180) / PI
    if x.const() == 0 and f in ('cos', 'sin', 'tan', 'arctan', 'arcsin', 'sqrt', 'abs', 'radians', 'degrees'):
        return rat(1 if f == 'cos' else 0)
    if f in ('cos', 'sin'):
        neg = x.n and x.n[max(x.n)] < 0
        if neg:
            x = -x
        c, s = atom(('fn', 'cos', x.key())), atom(('fn', 'sin', x.key()))
        ci, si = next(iter(c.atoms())), next(iter(s.atoms()))
        COS[ci], SIN[si] = si, ci
        return c if f == 'cos' else -s if neg else s
    return atom(('fn', f, x.key()))


class Arr:
    """Array along its first axis; `n` is None when the length is not known."""

    def __init__(self, get, n=None, key=None, t=False):
        self.get_, self.n, self.key_, self.t, self.memo = get, n, key, t, {}

    def get(self, i):
        if i < 0 and self.n is not None:
            i += self.n
        if i not in self.memo:
            self.memo[i] = unlazy(self.get_(i))
        return self.memo[i]

    def rows(self):
        return [self.get(i) for i in range(self.n)]

    def key(self):
        if self.key_ is not None:
            return self.key_
        if self.n is None:
            return ('arr?', id(self))
        return ('arr',) + tuple(r.key() for r in self.rows())

    def map(self, f):
        return Arr(lambda i: f(self.get(i)), self.n, t=self.t)

    def is_mat(self):
        return self.n is not None and self.n > 0 and isinstance(self.get(0), Arr) and self.get(0).n is not None

    def cols(self):
        return self.get(0).n


def arr(rows):
    rows = list(rows)
    return Arr(lambda i: rows[i], len(rows))


def symarr(nm, n=None):
    return Arr(lambda i: atom(('s', f'{nm}[{i}]')), n, key=('s', nm))


def lift(f, a, b):
    a, b = unlazy(a), unlazy(b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        n = a.n if a.n is not None else b.n
        # a column combined with coordinates along the first axis
        if b.is_mat() and b.cols() == 1 and not a.is_mat() and a.n in (b.n, None):
            b = Arr(lambda i, b=b: b.get(i).get(0), b.n)
        elif a.is_mat() and a.cols() == 1 and not b.is_mat() and b.n in (a.n, None):
            a = Arr(lambda i, a=a: a.get(i).get(0), a.n)
        if a.is_mat() and not b.is_mat():
            return Arr(lambda i: lift(f, a.get(i), b), a.n)
        if b.is_mat() and not a.is_mat():
            return Arr(lambda i: lift(f, a, b.get(i)), b.n)
        if a.n is not None and b.n is not None and a.n != b.n:
            n = max(a.n, b.n)
            return Arr(lambda i: lift(f, a.get(i if a.n > 1 else 0), b.get(i if b.n > 1 else 0)), n, t=a.t or b.t)
        return Arr(lambda i: lift(f, a.get(i), b.get(i)), n, t=a.t or b.t)
    if isinstance(a, Arr):
        return Arr(lambda i: lift(f, a.get(i), b), a.n, t=a.t)
    if isinstance(b, Arr):
        return Arr(lambda i: lift(f, a, b.get(i)), b.n, t=b.t)
    return f(a, b)


def det3(m):
    g = lambda i, j: m.get(i).get(j)
    return g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0)) + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0))


def inv3(m):
    g = lambda i, j: m.get(i % 3).get(j % 3)
    d = det3(m)
    return arr(arr((g(j + 1, i + 1) * g(j + 2, i + 2) - g(j + 1, i + 2) * g(j + 2, i + 1)) / d for j in range(3)) for i in range(3))


def transpose(m):
    return arr(arr(m.get(i).get(j) for i in range(m.n)) for j in range(m.cols()))


class Algebra:
    """Values of terms.  lens: lengths of array symbols; opaque(t) -> value or None overrides the value of a term."""

    def __init__(self, lens=None, opaque=None, lim=LIM, dotlim=LIM, generic=False, matlim=None):
        WORK[0], self.matlim = 0, matlim
        # generic: symbolic scalars are at none of the isolated values where they equal each other or a constant
        self.generic, self.lens, self.opaque, self.lim, self.dotlim, self.memo = generic, lens or {}, opaque, lim, dotlim, {}

    def val(self, t):
        v = self.memo.get(t.id)
        if v is None:
            v = self.opaque(t) if self.opaque else None
            if v is None and t.k in ('attr', 'sub', 'call'):
                v = self.points(t)
            if v is None:
                v = self.val_(t)
            if v is None:
                v = self.atom(t)
            if self.matlim is not None and isinstance(v, Arr) and v.n == 3 and v.is_mat() and v.cols() == 3:
                v = self.entries(v)
            self.memo[t.id] = v
        return v

    def points(self, t):
        """2D points from a library function, whatever axes the code selects or moves."""
        x, n = t, 0
        while True:
            if x.k == 'attr' and x.a[1] == 'T':
                x = x.a[0]
            elif x.k == 'sub' and x.a[1] is NONE:
                x = x.a[0]
            elif x.k == 'sub' and x.a[1].k == 'tuple' and all(full(z) or pyval(z) in ((True, 0), (True, None)) for z in x.a[1].a) and any(full(z) for z in x.a[1].a):
                x = x.a[0]
            elif x.k == 'call' and x.a[0].k == 'attr' and x.a[0].a[1] in ('squeeze', 'reshape', 'astype', 'transpose'):
                x = x.a[0].a[0]
            elif x.k == 'call' and callname(x) in ('numpy.squeeze', 'numpy.transpose', 'numpy.array', 'numpy.expand_dims', 'numpy.asarray') and x.a[1]:
                x = x.a[1][0]
            elif x.k == 'sub' and pyval(x.a[1]) == (True, 0) and x.a[0].k == 'call' and (callname(x.a[0]) or '').startswith('cv2.'):
                x, n = x.a[0], n + 1
            elif x.k == 'call' and (callname(x) or '').startswith('cv2.') and callname(x).split('.')[-1] in ('undistortPoints', 'projectPoints', 'distortPoints'):
                return Arr(lambda i: atom(('pt', callname(x), self.key(x), i)), 2, key=('pt', self.key(x)))
            else:
                return None

    def small(self, v, lim=None):
        if isinstance(v, Rat) and v.size() > (lim or self.lim) and (lim is None or lim > 1000 or any(x in COS or x in SIN for x in v.atoms())):
            return atom(('big', v.key()))
        return v

    def atom(self, t):
        """Irreducible value with canonical identity."""
        k = self.key(t)
        if t.k == 'sym' and t.a[0] in self.lens:
            return symarr(t.a[0], self.lens[t.a[0]])
        n = None
        return Lazy(k, n)

    def key(self, t):
        if t.k == 'sym':
            return ('s', t.a[0])
        if t.k == 'const':
            return ('c', repr(t.a[1]))
        if t.k == 'ext':
            return ('ext', t.a[0])

        def k(x):
            if isinstance(x, T):
                if x.k in ('sym', 'const', 'ext', 'slice', 'attr', 'none', 'tuple', 'kw'):
                    return self.key(x)
                v = self.val(x)
                return v.key()
            if isinstance(x, tuple):
                return tuple(k(y) for y in x)
            return x
        return (t.k,) + tuple(k(x) for x in t.a)

    def val_(self, t):
        k, a = t.k, t.a
        if k == 'const':
            if isinstance(a[1], float) and a[1] == 3.141592653589793:
                return PI
            f = num(a[1]) if isinstance(a[1], (int, float)) else None
            return rat(f) if f is not None else None
        if k == 'ext' and a[0] == 'math.pi':
            return PI
        if k in ('tuple', 'list'):
            out = []
            if len(a) == 1 and a[0].k == 'star' and len(a[0].a) == 3 and len(a[0].a[1]) == 1 and not a[0].a[2]:
                # comprehension over an array
                body, ((coll, uid),), _ = a[0].a
                v = unlazy(self.val(coll))
                if isinstance(v, Arr) and v.n is not None and v.n <= 64:
                    e = mk('elem', coll, uid)
                    return arr(self.val(simp(body, lambda x, i=i: mk('sub', coll, const(i)) if x is e else None)) for i in range(v.n))
                return None
            for x in a:
                if x.k in ('star', 'starred'):
                    v = unlazy(self.val(x.a[0]))
                    if not isinstance(v, Arr) or v.n is None:
                        return None
                    out += v.rows()
                else:
                    out.append(self.val(x))
            return arr(out)
        if k == 'bin':
            return self.binop(a[0], a[1], a[2])
        if k == 'un' and a[0] == '-':
            v = self.val(a[1])
            return neg(v)
        if k == 'copyof':
            return self.val(a[0])
        if k == 'ite':
            c = self.truth(a[0]) if self.generic else None
            if c is not None:
                return self.val(a[1] if c else a[2])
            return self.ite(a[0], self.val(a[1]), self.val(a[2]))
        if k == 'sub':
            return self.sub(a[0], a[1])
        if k == 'upd':
            return self.upd(*a)
        if k == 'attr' and a[1] == 'T':
            v = self.val(a[0])
            if isinstance(v, Arr):
                if v.is_mat():
                    return transpose(v)
                return Arr(v.get, v.n, v.key_, not v.t)
            return v
        if k == 'call':
            return self.call(t)
        return None

    def truth(self, c):
        if pyval(c)[0]:
            return bool(pyval(c)[1])
        if c.k == 'not':
            b = self.truth(c.a[0])
            return None if b is None else not b
        if c.k in ('and', 'or'):
            bs = [self.truth(x) for x in c.a]
            if (c.k == 'or') in bs:
                return c.k == 'or'
            return None if None in bs else c.k == 'and'
        if c.k == 'cmp' and c.a[0] in ('==', '!='):
            x, y = (unlazy(self.val(z)) for z in c.a[1:3])
            if isinstance(x, Rat) and isinstance(y, Rat):
                return (x == y) == (c.a[0] == '==')
        if c.k == 'cmp' and c.a[0] in ('is', 'is not') and c.a[2] is NONE:
            if isinstance(self.val(c.a[1]), Arr) and c.a[1].k in ('bin', 'call', 'upd', 'sub'):
                return c.a[0] == 'is not'
        if c.k == 'truth':
            x = unlazy(self.val(c.a[0]))
            if isinstance(x, Rat):
                return not x == rat(0)
        return None

    def binop(self, op, x, y):
        if op == '@':
            return self.dot(self.val(x), self.val(y))
        a, b = unlazy(self.val(x)), unlazy(self.val(y))
        if op == '**':
            c = b.const() if isinstance(b, Rat) else None
            if c is not None and c.denominator == 1 and 0 <= c <= 8:
                def pw(v):
                    if isinstance(v, Arr):
                        return v.map(pw)
                    r = rat(1)
                    for _ in range(int(c)):
                        r = r * v
                    return r
                return pw(a)
            if c == Fraction(1, 2):
                return each(a, lambda v: fn('sqrt', v))
            return None
        f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q, '/': lambda p, q: p / q}.get(op)
        return lift(lambda p, q: self.small(f(p, q)), a, b) if f else None

    def ite(self, c, x, y):
        x, y = unlazy(x), unlazy(y)
        if isinstance(x, Arr) or isinstance(y, Arr):
            n = x.n if isinstance(x, Arr) else y.n
            g = lambda v, i: v.get(i) if isinstance(v, Arr) else v
            return Arr(lambda i: self.ite(c, g(x, i), g(y, i)), n)
        if x.key() == y.key() or x == y:
            return x
        return atom(('ite', self.key(c), x.key(), y.key()))

    def sub(self, x, i):
        v = self.val(x)
        if isinstance(v, Lazy):
            v = v.arr()
        if not isinstance(v, Arr):
            # a value per coordinate: the coordinates that are selected are not distinguished
            return v if isinstance(v, Rat) and i.k != 'slice' and valid_mask(i) else None
        ok, c = pyval(i)
        if ok and c is None:
            return v    # as for None with slices
        if i.k == 'tuple' and len(i.a) == 2 and full(i.a[0]) and not pyval(i.a[1])[0] and i.a[1].k not in ('slice', 'list', 'tuple'):
            return v        # a selection of coordinates
        if i.k == 'tuple' and len(i.a) == 2 and pyval(i.a[0])[0] and isinstance(pyval(i.a[0])[1], int) and not pyval(i.a[1])[0] and i.a[1].k not in ('slice', 'list', 'tuple'):
            ok, c = pyval(i.a[0])
        if ok and isinstance(c, int) and not isinstance(c, bool):
            if v.n is not None and not -v.n <= c < v.n or v.n is None and c < 0:
                return None
            return v.get(c)
        if i.k == 'slice':
            if v.n is None:
                lo, hi, st = [pyval(z)[1] if pyval(z)[0] else '?' for z in i.a]
                if lo is None and st in (None, 1) and isinstance(hi, int) and hi > 0:
                    return Arr(v.get, hi, t=v.t)
                return None
            r = self.indices(i, v.n)
            return Arr(lambda j: v.get(r[j]), len(r), t=v.t) if r is not None else None
        if i.k == 'tuple' and i.a and all(pyval(z) == (True, Ellipsis) or z.k == 'slice' or pyval(z)[0] for z in i.a):
            w = v
            # a new leading axis is not distinguished
            ia = i.a[1:] if pyval(i.a[0]) == (True, None) and len(i.a) > 1 else i.a
            z0 = ia[0]
            rest = ia[1:]
            ok, c = pyval(z0)
            if ok and isinstance(c, int):
                w = w.get(c) if w.n is None or -w.n <= c < w.n else None
            elif z0.k == 'slice':
                r = self.indices(z0, w.n) if w.n is not None else None
                if full(z0):
                    if len(rest) == 1 and pyval(rest[0])[0] and isinstance(pyval(rest[0])[1], int) and w.is_mat():
                        j = pyval(rest[0])[1]
                        return Arr(lambda q: w.get(q).get(j), w.n)
                    if all(pyval(z) == (True, None) or full(z) for z in rest):
                        return w
                    if len(rest) == 1 and rest[0].k == 'slice' and w.is_mat() and w.n and w.get(0).n is not None:
                        r = self.indices(rest[0], w.get(0).n)
                        return None if r is None else Arr(lambda q: arr(w.get(q).get(j) for j in r), w.n)
                    return None
                if r is None:
                    return None
                w = Arr(lambda j: v.get(r[j]), len(r))
            else:
                return None
            for z in rest:
                ok, c = pyval(z)
                if ok and c is None or full(z):
                    continue
                if ok and isinstance(c, int) and isinstance(w, Arr):
                    w = w.get(c)
                    continue
                return None
            return w
        return None

    def indices(self, s, n):
        vs = []
        for z in s.a:
            ok, c = pyval(z)
            if not ok or not (c is None or isinstance(c, int)):
                return None
            vs.append(c)
        return range(n)[slice(*vs)]

    def upd(self, x, i, v):
        b = x
        while b.k == 'copyof':
            b = b.a[0]
        if i.k == 'tuple' and len(i.a) == 2 and full(i.a[0]) and not pyval(i.a[1])[0] and callname(b) in ('numpy.full', 'numpy.full_like', 'numpy.empty', 'numpy.empty_like'):
            return unlazy(self.val(v))       # values of the selected coordinates of a new array
        if i.k == 'tuple' and len(i.a) == 2 and full(i.a[0]) and valid_mask(i.a[1]):
            return unlazy(self.val(v))       # the other coordinates are nan
        if invalid_mask(i) and pyval(v)[0] and pyval(v)[1] != pyval(v)[1]:
            return self.val(x)
        base, new = unlazy(self.val(x)), unlazy(self.val(v))
        if isinstance(self.val(x), Lazy):
            base = self.val(x).arr()
        if not isinstance(base, Arr):
            return None
        ok, c = pyval(i)
        if i.k == 'tuple' and len(i.a) == 2 and pyval(i.a[0])[0] and isinstance(pyval(i.a[0])[1], int) and full(i.a[1]):
            ok, c = pyval(i.a[0])
        if ok and isinstance(c, int):
            if c < 0 and base.n is not None:
                c += base.n
            return Arr(lambda j: new if j == c else base.get(j), base.n, t=base.t)
        if i.k == 'slice':
            n = base.n
            if full(i):
                return new if isinstance(new, Arr) else base.map(lambda _: new)
            if n is None:
                return None
            r = self.indices(i, n)
            if r is None:
                return None
            pos = {q: p for p, q in enumerate(r)}
            return Arr(lambda j: (new.get(pos[j]) if isinstance(new, Arr) else new) if j in pos else base.get(j), n, t=base.t)
        if i.k == 'tuple' and len(i.a) == 2 and base.is_mat() and all(z.k in ('list', 'tuple', 'slice') or isinstance(pyval(z)[1], int) for z in i.a):
            # a set of elements: paired lists, or a slice of rows and one column
            ix = []
            for z, n in zip(i.a, (base.n, base.cols())):
                r = self.indices(z, n) if z.k == 'slice' else [pyval(q)[1] for q in z.a] if z.k in ('list', 'tuple') else None
                ix.append(r if r is None or all(isinstance(q, int) and -n <= q < n for q in r) else ())
            if i.a[0].k != 'slice' and i.a[1].k != 'slice' and None not in ix and len(ix[0]) == len(ix[1]) > 0:
                pos = {(r % base.n, c % base.cols()): q for q, (r, c) in enumerate(zip(*ix))}
            elif i.a[0].k == 'slice' and ix[0] and ix[1] is None and isinstance(pyval(i.a[1])[1], int):
                pos = {(r, pyval(i.a[1])[1] % base.cols()): q for q, r in enumerate(ix[0])}
            elif i.a[1].k == 'slice' and ix[1] and ix[0] is None and isinstance(pyval(i.a[0])[1], int):
                pos = {(pyval(i.a[0])[1] % base.n, c): q for q, c in enumerate(ix[1])}
            elif i.a[0].k == 'slice' and i.a[1].k == 'slice' and ix[0] and ix[1]:
                rs, cs, nv = ix[0], ix[1], unlazy(new)
                if isinstance(nv, Arr) and not (nv.is_mat() and nv.n == len(rs) and nv.cols() == len(cs)):
                    return None
                at = lambda r, c: (nv.get(rs.index(r)).get(cs.index(c)) if isinstance(nv, Arr) else nv) if r in rs and c in cs else base.get(r).get(c)
                return arr(arr(at(r, c) for c in range(base.cols())) for r in range(base.n))
            else:
                pos = None
            if pos:
                nv = unlazy(new)
                if isinstance(self.val(v), Lazy):
                    nv = self.val(v).arr()
                g = lambda q: nv.get(q if nv.n != 1 else 0) if isinstance(nv, Arr) else nv
                return arr(arr(g(pos[r, c]) if (r, c) in pos else base.get(r).get(c) for c in range(base.cols())) for r in range(base.n))
        if i.k == 'tuple' and len(i.a) == 2:
            p, q = (pyval(z) for z in i.a)
            if p[0] and q[0] and isinstance(p[1], int) and isinstance(q[1], int) and base.is_mat():
                R, C = p[1] % base.n, q[1] % base.cols()
                return arr(arr(new if (i2, j2) == (R, C) else base.get(i2).get(j2) for j2 in range(base.cols())) for i2 in range(base.n))
            if full(i.a[0]) and q[0] and isinstance(q[1], int) and base.is_mat():
                C = q[1] % base.cols()
                return arr(arr((new.get(i2) if isinstance(new, Arr) else new) if j2 == C else base.get(i2).get(j2) for j2 in range(base.cols())) for i2 in range(base.n))
        return None

    def entries(self, m):
        """Matrix with its larger entries as irreducible scalars."""
        if self.matlim is None or not m.is_mat():
            return m

        def short(v):
            if isinstance(v, Rat) and v.size() > self.matlim and not any(x in COS or x in SIN for x in v.atoms()):
                return atom(('big', v.key()))
            return v
        return arr(arr(short(m.get(i).get(j)) for j in range(m.cols())) for i in range(m.n))

    def dot(self, m, x):
        m, x = (v.arr() if isinstance(v, Lazy) else v for v in (m, x))
        if not isinstance(m, Arr) or not isinstance(x, Arr):
            return None
        m, x = self.entries(m), self.entries(x)
        if m.is_mat():
            n = m.cols()
            if x.n is not None and x.n != n:
                return None

            def row(i):
                if x.is_mat():
                    return arr(self.small(total(m.get(i).get(j) * x.get(j).get(c) for j in range(n)), self.dotlim) for c in range(x.cols()))
                xs = [x.get(j) for j in range(n)]
                if any(isinstance(v, Arr) for v in xs):
                    return atom(('dot?', m.key(), x.key()))
                return self.small(total(m.get(i).get(j) * xs[j] for j in range(n)), self.dotlim)
            return Arr(row, m.n)
        if m.n is not None and not m.is_mat():
            if x.is_mat():
                return arr(self.small(total(m.get(j) * x.get(j).get(c) for j in range(m.n))) for c in range(x.cols()))
            if x.n == m.n:
                return self.small(total(m.get(j) * x.get(j) for j in range(m.n)))
        return None

    def call(self, t):
        f, args, kw = t.a[0], t.a[1], dict(t.a[2])
        nm = callname(t)
        if f.k == 'attr' and not (f.a[0].k == 'ext'):
            o, meth = f.a
            if meth == 'dot' and len(args) == 1:
                return self.dot(self.val(o), self.val(args[0]))
            if meth == 'squeeze':
                return squeeze(self.val(o))
            if meth in ('astype', 'copy', 'view', 'tolist', 'ravel', 'flatten', 'item', '__array__'):
                return self.val(o)
            if meth == 'reshape':
                return self.val(o)
            if meth == 'transpose' and not args and not kw:
                return self.val(mk('attr', o, 'T'))
            if meth == 'sum':
                return self.sum(o, args[0] if args else kw.get('axis'))
            if meth == 'mean':
                return self.mean(o, args[0] if args else kw.get('axis'))
            if meth in ('max', 'min') and not args and not kw:
                return self.extreme(meth, self.val(o))
            return None
        if nm is None:
            return None
        s = nm.split('.')[-1]
        if nm.startswith(('numpy.', 'math.')) or nm in ('numpy', 'math'):
            if s in ('array', 'asarray', 'float64', 'float32', 'atleast_1d', 'ascontiguousarray', 'copy', 'asanyarray'):
                return self.val(args[0]) if args else None
            if s in ('dot', 'matmul') and len(args) == 2:
                return self.dot(self.val(args[0]), self.val(args[1]))
            if s == 'where' and len(args) == 3:
                return self.val(mk('ite', *args))
            if s in ('square',):
                return each(self.val(args[0]), lambda v: self.small(v * v))
            if s == 'squeeze' and args:
                return squeeze(self.val(args[0]))
            if s == 'cross' and len(args) == 2 and not kw:
                a, b = (unlazy(self.val(x)) for x in args)
                if all(isinstance(x, Arr) and x.n == 3 and not x.is_mat() for x in (a, b)):
                    return arr(a.get((i + 1) % 3) * b.get((i + 2) % 3) - a.get((i + 2) % 3) * b.get((i + 1) % 3) for i in range(3))
                return None
            if s in ('negative',):
                return neg(self.val(args[0]))
            if s in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and len(args) == 2 and 'where' in kw:
                # selected elements of the result, and the others of `out`
                e = mk('bin', {'add': '+', 'subtract': '-', 'multiply': '*'}.get(s, '/'), args[0], args[1])
                return self.val(mk('ite', kw['where'], e, kw.get('out', mk('sym', 'undefined'))))
            if s in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and len(args) == 2:
                return self.binop({'add': '+', 'subtract': '-', 'multiply': '*'}.get(s, '/'), args[0], args[1])
            if s in ('cos', 'sin', 'tan', 'arctan', 'arcsin', 'arccos', 'sqrt', 'abs', 'absolute', 'exp', 'log', 'radians', 'degrees', 'deg2rad', 'rad2deg', 'atan', 'asin', 'acos') and len(args) == 1:
                s = {'deg2rad': 'radians', 'rad2deg': 'degrees', 'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'absolute': 'abs'}.get(s, s)
                return each(self.val(args[0]), lambda v: fn(s, v))
            if s in ('arctan2', 'atan2', 'hypot') and len(args) == 2:
                a, b = (unlazy(self.val(x)) for x in args)
                if isinstance(a, Rat) and isinstance(b, Rat):
                    if s == 'hypot':
                        return fn('sqrt', a * a + b * b)
                    return atom(('fn', 'arctan2', a.key(), b.key()))
            if s in ('ones', 'ones_like', 'zeros', 'zeros_like'):
                one = rat(1 if s.startswith('ones') else 0)
                sh = self.shape(args[0]) if args and not s.endswith('_like') else None
                if sh is None or not sh or not isinstance(sh[0], int):
                    return one
                if len(sh) == 1 or not isinstance(sh[1], int):
                    return arr([one] * sh[0]) if sh[0] <= 64 else one
                return arr(arr([one] * sh[1]) for _ in range(sh[0])) if sh[0] * sh[1] <= 256 else one
            if s in ('eye', 'identity') and args:
                sh = [pyval(x)[1] for x in args if pyval(x)[0]]
                if sh and isinstance(sh[0], int) and sh[0] <= 16:
                    c = sh[1] if len(sh) > 1 and isinstance(sh[1], int) else sh[0]
                    return arr(arr(rat(int(i == j)) for j in range(c)) for i in range(sh[0]))
            if s == 'diag' and len(args) == 1:
                v = self.val(args[0])
                if isinstance(v, Arr) and v.n is not None and not v.is_mat():
                    return arr(arr(v.get(i) if i == j else rat(0) for j in range(v.n)) for i in range(v.n))
            if s == 'column_stack' and args[0].k in ('tuple', 'list'):
                rows = [unlazy(self.val(x)) for x in args[0].a]
                if all(isinstance(x, Rat) for x in rows):
                    return Arr(lambda i: rows[i], len(rows), t=True)
                return None
            if s == 'expand_dims' and args and pyval(args[1] if len(args) > 1 else kw.get('axis')) == (True, 0):
                return self.val(args[0])    # as for None
            if s in ('vstack', 'row_stack', 'concatenate', 'stack'):
                seq = args[0]
                if seq.k in ('tuple', 'list'):
                    rows = []
                    for x in seq.a:
                        v = unlazy(self.val(x))
                        if isinstance(v, Rat):
                            rows.append(v)
                        elif v.n is None:
                            return None
                        elif s == 'stack':
                            rows.append(v)
                        else:
                            rows.extend(v.rows())
                    return arr(rows)
            if s == 'mean' and args:
                return self.mean(args[0], args[1] if len(args) > 1 else kw.get('axis'))
            if s == 'sum' and args:
                return self.sum(args[0], args[1] if len(args) > 1 else kw.get('axis'))
            if s == 'linalg.inv' or nm == 'numpy.linalg.inv':
                m = self.val(args[0])
                if isinstance(m, Arr) and m.is_mat() and m.n == m.cols() == 3:
                    return inv3(self.entries(m))
                return None
            if nm == 'numpy.linalg.norm':
                v = self.val(args[0])
                if isinstance(v, Arr) and v.n is not None and not v.is_mat():
                    return fn('sqrt', self.small(total(x * x for x in v.rows())))
                return None
            if s == 'transpose' and len(args) == 1:
                return self.val(mk('attr', args[0], 'T'))
        if (nm in ('builtins.max', 'builtins.min') or nm in ('numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin')) and args and not kw:
            return self.extreme(nm[-3:], self.val(args[0]) if len(args) == 1 else arr(self.val(x) for x in args))
        if nm in ('builtins.tuple', 'builtins.list', 'builtins.int', 'builtins.float') and len(args) == 1:
            return self.val(args[0])
        return None

    def mean(self, x, axis):
        """Mean over the coordinates."""
        v = unlazy(self.val(x))
        if isinstance(v, Rat):
            return fn('mean', v)
        if isinstance(v, Arr) and v.n is not None and not v.is_mat() and axis is not None and pyval(axis)[0]:
            if pyval(axis)[1] in ((0, -2) if v.t else (1, -1)):
                return v.map(lambda r: fn('mean', r))
        if isinstance(v, Arr) and v.is_mat() and v.n and axis is not None and pyval(axis)[1] in (0, 1, -1, -2):
            m = [r.rows() for r in v.rows()]
            if pyval(axis)[1] in (1, -1):
                return arr(total(r) / rat(len(r)) for r in m)
            return arr(total(r[j] for r in m) / rat(len(m)) for j in range(len(m[0])))
        return None

    def extreme(self, f, v):
        v = unlazy(v)
        if isinstance(v, Arr) and v.n and not v.is_mat() and all(isinstance(x, Rat) for x in v.rows()):
            return maxof(*v.rows(), f=f)
        return None

    def shape(self, t):
        ok, c = pyval(t)
        if ok and isinstance(c, int):
            return [c]
        if t.k in ('tuple', 'list'):
            return [pyval(x)[1] if pyval(x)[0] else None for x in t.a]
        return None

    def sum(self, x, axis):
        v = self.val(x)
        if isinstance(v, Arr) and v.n is not None:
            ok, c = pyval(axis) if axis is not None else (True, None)
            if ok and c in (None, 0) and not v.is_mat():
                return self.small(total(r for r in v.rows()))
        return None


class Lazy:
    """Irreducible value whose rank is not known: a scalar, or an array when it is indexed."""

    def __init__(self, k, n):
        self.k, self.n = k, n

    def key(self):
        return self.k

    def rat(self):
        return atom(self.k)

    def arr(self):
        nm = self.k[1] if self.k[0] == 's' else None
        return Arr(lambda i: Lazy(('s', f'{nm}[{i}]') if nm else ('el', self.k, i), None).rat(), None, key=self.k)


def unlazy(v):
    return v.rat() if isinstance(v, Lazy) else v


def full(z):
    return z.k == 'slice' and all(pyval(x) == (True, None) for x in z.a)


def each(v, f):
    v = unlazy(v)
    return v.map(lambda x: each(x, f)) if isinstance(v, Arr) else f(v)


def neg(v):
    return each(v, lambda x: -x)


def total(xs):
    r = rat(0)
    for x in xs:
        r = r + x
    return r


def maxof(*xs, f='max'):
    """Largest of scalars, whatever their order."""
    ks = {x.key(): x for x in xs}
    return xs[0] if len(ks) == 1 else atom(('fn', f, tuple(sorted(ks))))


def invalid_mask(t):
    """Mask of coordinates with nan values."""
    if t.k == 'un' and t.a[0] == '~':
        return valid_mask(t.a[1])
    if t.k == 'bin' and t.a[0] == '|':
        return invalid_mask(t.a[1]) and invalid_mask(t.a[2])
    if t.k == 'call' and callname(t) in ('numpy.isnan',):
        return True
    if t.k == 'call' and callname(t) in ('numpy.any', 'numpy.logical_or') and t.a[1]:
        return all(invalid_mask(x) for x in t.a[1][:2 if callname(t) == 'numpy.logical_or' else 1])
    if t.k == 'call' and callname(t) in ('numpy.logical_not', 'numpy.invert') and t.a[1]:
        return valid_mask(t.a[1][0])
    if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] == 'any':
        return invalid_mask(t.a[0].a[0])
    return False


def valid_mask(t):
    """Mask of coordinates without nan values."""
    if t.k == 'un' and t.a[0] == '~':
        return invalid_mask(t.a[1])
    if t.k == 'bin' and t.a[0] == '&':
        return valid_mask(t.a[1]) and valid_mask(t.a[2])
    if t.k == 'call' and callname(t) in ('numpy.isfinite',):
        return True
    if t.k == 'call' and callname(t) in ('numpy.all', 'numpy.logical_and') and t.a[1]:
        return all(valid_mask(x) for x in t.a[1][:2 if callname(t) == 'numpy.logical_and' else 1])
    if t.k == 'call' and callname(t) in ('numpy.logical_not', 'numpy.invert') and t.a[1]:
        return invalid_mask(t.a[1][0])
    if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] == 'all':
        return valid_mask(t.a[0].a[0])
    return False


def squeeze(v):
    """Without axes of length 1."""
    v = unlazy(v)
    while isinstance(v, Arr) and v.n == 1 and isinstance(v.get(0), Arr):
        v = v.get(0)
    if isinstance(v, Arr) and v.is_mat() and v.cols() == 1:
        return Arr(lambda i, v=v: v.get(i).get(0), v.n)
    return v
