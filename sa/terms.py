"""Hash-consed value-graph terms (gated SSA style): equal values computed by differently written code
get the same term, so that the rules judge value flow rather than program text."""
from __future__ import annotations
import math

_tab: dict = {}


class T:
    __slots__ = ('k', 'a', 'id', '_fv')
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        T._n += 1
        t.k, t.a, t.id, t._fv = k, a, T._n, None
        _tab[key] = t
    return t


def const(v):
    if isinstance(v, float):
        key = ('const', 'float', repr(v))
    else:
        key = ('const', type(v).__name__, v)
    t = _tab.get(key)
    if t is None:
        t = T()
        T._n += 1
        t.k, t.a, t.id, t._fv = 'const', (type(v).__name__, v), T._n, None
        _tab[key] = t
    return t


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk('undef')
ABSENT = mk('absent')
ELL = const(Ellipsis)


def is_const(t):
    return isinstance(t, T) and t.k == 'const'


def cval(t):
    return t.a[1]


def pyval(t):
    """(ok, python value) of a constant term or tuple of constants."""
    if not isinstance(t, T):
        return False, None
    if t.k == 'const':
        return True, t.a[1]
    if t.k == 'tuple':
        out = []
        for x in t.a:
            ok, v = pyval(x)
            if not ok:
                return False, None
            out.append(v)
        return True, tuple(out)
    return False, None


def tup(*items):
    return mk('tuple', *items)


def sym(name):
    return mk('sym', name)


def ext(name):
    return mk('ext', name)


def not_(c):
    if c.k == 'const':
        return const(not c.a[1])
    if c.k == 'not':
        return c.a[0]
    if c.k == 'cmp':
        inv = {'==': '!=', '!=': '==', 'is': 'isnot', 'isnot': 'is', 'in': 'notin', 'notin': 'in'}
        op = c.a[0]
        if op in inv and op in ('!=', 'isnot', 'notin'):
            return mk('cmp', inv[op], c.a[1], c.a[2])
    return mk('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c.k == 'const':
            if not c.a[1]:
                return FALSE
            continue
        for x in (c.a if c.k == 'and' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', *out)


def or_(*cs):
    out = []
    for c in cs:
        if c.k == 'const':
            if c.a[1]:
                return TRUE
            continue
        for x in (c.a if c.k == 'or' else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk('or', *out)


def ite(c, a, b):
    if c.k == 'const':
        return a if c.a[1] else b
    if a is b:
        return a
    if c.k == 'not':
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if isinstance(a, T) and a.k == 'ite' and a.a[0] is c:
        a = a.a[1]
    if isinstance(b, T) and b.k == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tchildren(x)


def _tchildren(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tchildren(y)


def walk(t, stop=None):
    """All distinct sub-terms of t."""
    seen = set()
    todo = [t] if isinstance(t, T) else list(t)
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if stop and stop(x):
            continue
        todo.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def subst(t, f, memo=None):
    """Rebuild t bottom up; f(t) may return a replacement (checked top-down first)."""
    if memo is None:
        memo = {}
    return _subst(t, f, memo)


def _subst(t, f, memo):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(_subst(x, f, memo) for x in t)
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if not t.a or t.k in ('const', 'sym', 'ext', 'obj', 'undef', 'absent', 'cls', 'fn', 'mod'):
            r = t
        else:
            na = tuple(_subst(x, f, memo) for x in t.a)
            r = t if na == t.a else rebuild(t.k, na)
    memo[t.id] = r
    return r


def rebuild(k, a):
    if k == 'ite':
        return ite(*a)
    if k == 'not':
        return not_(*a)
    if k == 'and':
        return and_(*a)
    if k == 'or':
        return or_(*a)
    return mk(k, *a)


def show(t, d=0, lim=14):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, str) else t
    if d > lim:
        return '…'
    k, a = t.k, t.a
    s = lambda x: show(x, d + 1)
    if k == 'const':
        return repr(a[1])
    if k in ('sym', 'ext', 'fn', 'cls', 'mod'):
        return str(a[0]).replace('orthority.', '')
    if k == 'obj':
        return f'#{a[0]}{a[1]}'
    if k == 'enum':
        return f'{a[0].split(".")[-1]}.{a[1]}'
    if k == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if k == 'list':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if k == 'dict':
        return '{' + ', '.join((f'{s(x[0])}: {s(x[1])}' if isinstance(x, tuple) else s(x)) for x in a) + '}'
    if k == 'call':
        kw = [f'{n}={s(v)}' for n, v in a[2]]
        return f'{s(a[0])}(' + ', '.join([s(x) for x in a[1]] + kw) + ')'
    if k == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if k == 'sub':
        return f'{s(a[0])}[{s(a[1])}]'
    if k in ('bin', 'cmp'):
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if k == 'un':
        return f'({a[0]}{s(a[1])})'
    if k == 'ite':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if k == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in a)
    if k == 'starred':
        return '*' + s(a[0])
    return f'{k}<' + ', '.join(s(x) for x in a) + '>'
