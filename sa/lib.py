"""Term queries shared by the rules."""
from __future__ import annotations
import operator
from .terms import *
from .terms import T, children

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod}
ANYF = ('numpy.any', 'builtins.any')
ALLF = ('numpy.all', 'builtins.all')


def fold1(t):
    """One step of constant folding of a rebuilt term."""
    k, a = t.k, t.a
    if k == 'cmp':
        op, x, y = a
        okx, vx = pyval(x)
        oky, vy = pyval(y)
        if op in ('is', 'isnot'):
            if okx and oky and (vx is None or vy is None):
                return const((vx is vy) == (op == 'is'))
            if x is y:
                return const(op == 'is')
            nn = [z for z in (x, y) if z.k in ('tuple', 'list', 'dict', 'enum', 'fstr')]
            if nn and NONE in (x, y):
                return const(op == 'isnot')
            return t
        if okx and oky and op in OPS:
            try:
                return const(bool(OPS[op](vx, vy)))
            except TypeError:
                return t
        if op in ('in', 'notin') and okx and y.k in ('tuple', 'list', 'set', 'dict'):
            its = [pyval(e[0] if isinstance(e, tuple) else e) for e in y.a]
            if all(i[0] for i in its):
                return const((vx in [i[1] for i in its]) == (op == 'in'))
        # array of constants compared with a constant
        for p, q, sw in ((x, y, False), (y, x, True)):
            vs = arr_items(p)
            if vs is not None and pyval(q)[0] and op in OPS and not isinstance(pyval(q)[1], tuple):
                f = OPS[op]
                qv = pyval(q)[1]
                return tup(*[const(bool(f(qv, v) if sw else f(v, qv))) for v in vs])
        return t
    if k == 'truth':
        x = a[0]
        if x.k == 'const':
            return const(bool(x.a[1]))
        if x.k in ('cmp', 'not', 'and', 'or', 'truth', 'isinst'):
            return x
        if x.k in ('tuple', 'list', 'set') and not any(e.k in ('star', 'starred') for e in x.a):
            return const(len(x.a) > 0)
        if x.k == 'dict' and (not x.a or any(isinstance(e, tuple) and ABSENT not in getattr(e[1], 'a', ()) for e in x.a)):
            return const(bool(x.a))
        return t
    if k == 'bin':
        op, x, y = a
        okx, vx = pyval(x)
        oky, vy = pyval(y)
        if okx and oky and op in BIN and not isinstance(vx, tuple) and not isinstance(vy, tuple):
            try:
                return const(BIN[op](vx, vy))
            except Exception:
                return t
        if op in ('|', '&') and x.k == 'tuple' and y.k == 'tuple' and okx and oky and len(vx) == len(vy):
            return tup(*[const((p or q) if op == '|' else (p and q)) for p, q in zip(vx, vy)])
        if op == '-' and arr_items(x) is not None and arr_items(y) is not None and ('set' in (x.k, y.k) or 'builtins.set' in (callname(x), callname(y))):
            return mk('set', *[const(v) for v in arr_items(x) if v not in arr_items(y)])
        if op in ('|', '&') and okx and oky and isinstance(vx, bool) and isinstance(vy, bool):
            return const((vx or vy) if op == '|' else (vx and vy))
        return t
    if k == 'call' and a[0].k == 'ext':
        n = a[0].a[0]
        if n in ANYF + ALLF and len(a[1]) == 1:
            ok, v = pyval(a[1][0])
            if not ok and a[1][0].k == 'list':
                ok, v = pyval(mk('tuple', *a[1][0].a))
            if ok:
                v = v if isinstance(v, tuple) else (v,)
                return const(any(v) if n in ANYF else all(v))
        if n == 'builtins.len' and len(a[1]) == 1 and arr_items(a[1][0]) is not None and callname(a[1][0]) != 'builtins.set':
            return const(len(arr_items(a[1][0])))
        if n == 'builtins.len' and len(a[1]) == 1 and a[1][0].k in ('tuple', 'list', 'set') and not any(
                e.k in ('star', 'starred') for e in a[1][0].a):
            return const(len(a[1][0].a))
        if n in ('builtins.min', 'builtins.max', 'numpy.amin', 'numpy.amax', 'numpy.minimum', 'numpy.maximum'):
            vs = [pyval(x) for x in a[1]]
            if vs and all(v[0] for v in vs):
                vals = [v[1] for v in vs]
                if len(vals) == 1:
                    vals = vals[0] if isinstance(vals[0], tuple) else [vals[0]]
                try:
                    return const((min if 'min' in n else max)(vals))
                except Exception:
                    return t
    if k in ('list', 'tuple', 'set') and any(isinstance(x, T) and x.k in ('star', 'starred') for x in a):
        out = []
        for x in a:
            y = expand(x)
            out.extend([x] if y is None else y)
        return mk(k, *out) if tuple(out) != tuple(a) else t
    if k == 'sub':
        vs, m = arr_items(a[0]), arr_items(a[1])
        if vs is not None and m is not None and len(vs) == len(m) and all(isinstance(x, bool) for x in m):
            return mk('list', *[const(v) for v, x in zip(vs, m) if x])
    if k == 'attr' and a[1] == 'size' and arr_items(a[0]) is not None:
        return const(len(arr_items(a[0])))
    if k == 'call' and a[0].k == 'ext' and a[0].a[0] == 'builtins.range' and all(pyval(x)[0] for x in a[1]) and len(a[1]) in (1, 2):
        r = range(*[pyval(x)[1] for x in a[1]])
        if len(r) < 50:
            return mk('tuple', *[const(i) for i in r])
    if k == 'call' and a[0].k == 'ext' and a[0].a[0] == 'numpy.isin' and len(a[1]) == 2:
        vs, m = arr_items(a[1][0]), arr_items(a[1][1])
        if vs is not None and m is not None:
            return mk('tuple', *[const(v in m) for v in vs])
    if k == 'call' and a[0].k == 'attr' and a[0].a[1] in ('issubset', 'difference') and len(a[1]) == 1:
        vs, m = arr_items(a[0].a[0]), arr_items(a[1][0])
        if vs is not None and m is not None:
            return const(set(vs) <= set(m)) if a[0].a[1] == 'issubset' else mk('set', *[const(v) for v in vs if v not in m])
    if k == 'call' and a[0].k == 'attr' and a[0].a[1] in ('any', 'all', 'min', 'max') and not a[1]:
        vs = arr_items(a[0].a[0])
        if vs is not None:
            return const({'any': any, 'all': all, 'min': min, 'max': max}[a[0].a[1]](vs))
    return t


def expand(x):
    """Elements a comprehension part over constants contributes; None if not known."""
    if x.k == 'starred':
        vs = arr_items(x.a[0])
        return None if vs is None else [const(v) for v in vs]
    if x.k != 'star':
        return None
    if any(c is FALSE for c in x.a[2]):
        return []
    if len(x.a[1]) != 1 or not isinstance(x.a[1][0], tuple):
        return None
    vs = arr_items(x.a[1][0][0])
    if vs is None:
        return None
    out = []
    for v in vs:
        f = lambda t, u=x.a[1][0][1], v=v: const(v) if t.k == 'elem' and t.a[1] == u else None
        cs = [simp(c, f) for c in x.a[2]]
        if any(c is FALSE for c in cs):
            continue
        if any(c is not TRUE for c in cs):
            return None
        out.append(simp(x.a[0], f))
    return out


def arr_items(t):
    """Python values of an array / sequence term of constants."""
    if t.k == 'call' and t.a[0].k == 'ext' and t.a[0].a[0] in ('numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted') and t.a[1]:
        t = t.a[1][0]
    if t.k in ('tuple', 'list', 'set'):
        vs = [pyval(x) for x in t.a]
        if all(v[0] and not isinstance(v[1], tuple) for v in vs):
            return [v[1] for v in vs]
    return None


def simp(t, f=None, memo=None):
    """Rewrite with f (top down), then fold constants bottom up."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return tuple(simp(x, f, memo) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t.id)
    if r is not None:
        return r
    r = f(t) if f else None
    if r is None:
        if not t.a or t.k in ('const', 'sym', 'ext', 'obj', 'undef', 'absent', 'cls', 'fn', 'mod', 'enum'):
            r = t
        else:
            na = tuple(simp(x, f, memo) for x in t.a)
            r = fold1(rebuild(t.k, na) if na != t.a else t)
    memo[t.id] = r
    return r


def facts_rewrite(guards, f=None):
    """Rewriting that replaces every atom the guards establish by its truth value, after f."""
    tr = {}
    todo = list(guards)
    while todo:
        g = todo.pop()
        if g.k == 'and':
            todo.extend(g.a)
        elif g.k == 'not' and g.a[0].k == 'or':
            todo.extend(not_(x) for x in g.a[0].a)
        elif g.k == 'not':
            tr[g.a[0].id] = FALSE
        elif g.k != 'or':
            tr[g.id] = TRUE

    def rw(t):
        r = f(t) if f else None
        return r if r is not None else tr.get(t.id)
    return rw


def impossible(guards, f):
    """The conjunction of the guards is definitely false under the assumptions made by the rewriting f."""
    memo = {}
    gs = [simp(g, f, memo) for g in guards]
    if any(g is FALSE for g in gs):
        return True
    gs = [g for g in gs if g.k != 'const']
    for _ in range(3):
        unit = [g for g in gs if g.k != 'or' and not (g.k == 'not' and g.a[0].k == 'and')]
        rw = facts_rewrite(unit)
        comp = [g for g in gs if g not in unit]
        new = [simp(g, rw) for g in comp]
        if any(g is FALSE for g in new):
            return True
        nxt = unit + [g for g in new if g.k != 'const']
        if nxt == gs:
            break
        gs = nxt
    pos = set(gs)
    return any(not_(g) in pos for g in gs)


def guard_atoms(guards):
    """Atomic facts established by the guards (after unit propagation): {atom: bool}."""
    gs = [g for g in guards]
    for _ in range(4):
        unit = [g for g in gs if g.k != 'or' and not (g.k == 'not' and g.a[0].k == 'and')]
        rw = facts_rewrite(unit)
        new = [simp(g, rw) for g in gs if g not in unit]
        nxt = unit + [g for g in new if g.k != 'const']
        if nxt == gs:
            break
        gs = nxt
    out = {}
    todo = list(gs)
    while todo:
        g = todo.pop()
        if g.k == 'and':
            todo.extend(g.a)
        elif g.k == 'not' and g.a[0].k == 'or':
            todo.extend(not_(x) for x in g.a[0].a)
        elif g.k == 'not':
            out[g.a[0]] = False
        elif g.k != 'or':
            out[g] = True
    return out


def leaves(t, cond=()):
    """(value, conditions) alternatives of a gated value."""
    if isinstance(t, T) and t.k == 'ite':
        yield from leaves(t.a[1], cond + (t.a[0],))
        yield from leaves(t.a[2], cond + (not_(t.a[0]),))
    else:
        yield t, cond


def leafset(t):
    return {x for x, _ in leaves(t)}


def syms(t):
    return {x.a[0] for x in walk(t) if x.k == 'sym'}


def callname(t):
    """Dotted name of the callee of a call term ('.m' for a method)."""
    if isinstance(t, T) and t.k == 'call':
        f = t.a[0]
        if f.k == 'ext':
            return f.a[0]
        if f.k == 'attr':
            return '.' + f.a[1]
        if f.k in ('fn', 'cls'):
            return f.a[0]
    return None


def arg(e, i, name=None, default=None):
    """Argument i / name of a call event."""
    if name is not None and name in e.data['kwargs']:
        return e.data['kwargs'][name]
    a = e.data['args']
    if i is not None and i < len(a):
        return a[i]
    return default


def carg(t, i, name=None, default=None):
    """Argument i / name of a call term."""
    if name is not None:
        for n, v in t.a[2]:
            if n == name:
                return v
    if i is not None and i < len(t.a[1]):
        return t.a[1][i]
    return default


def calls(events, *names):
    return [e for e in events if e.kind == 'call' and e.name in names]


def where(e):
    l = e.loc
    return f'{l.file}:{l.func.replace("orthority.", "")}'


# --------------------------------------------------------------- linear / polynomial normal form
def poly(t, atom=None):
    """Polynomial normal form {monomial(tuple of sorted atom ids): coefficient}; atoms are irreducible terms."""
    if t.k == 'const' and isinstance(t.a[1], (int, float)) and not isinstance(t.a[1], bool):
        return {(): t.a[1]} if t.a[1] != 0 else {}
    if t.k == 'bin':
        op, x, y = t.a
        if op in ('+', '-'):
            p, q = poly(x, atom), poly(y, atom)
            r = dict(p)
            for m, c in q.items():
                r[m] = r.get(m, 0) + (c if op == '+' else -c)
                if r[m] == 0:
                    del r[m]
            return r
        if op == '*':
            p, q = poly(x, atom), poly(y, atom)
            r = {}
            for m, c in p.items():
                for n, d in q.items():
                    k = tuple(sorted(m + n))
                    r[k] = r.get(k, 0) + c * d
                    if r[k] == 0:
                        del r[k]
            return r
        if op == '/':
            q = poly(y, atom)
            if list(q) == [()]:
                return {m: c / q[()] for m, c in poly(x, atom).items()}
        if op == '**' and is_const(y) and isinstance(y.a[1], int) and 0 <= y.a[1] <= 4:
            r = {(): 1}
            p = poly(x, atom)
            for _ in range(y.a[1]):
                n = {}
                for m, c in r.items():
                    for m2, d in p.items():
                        k = tuple(sorted(m + m2))
                        n[k] = n.get(k, 0) + c * d
                r = {m: c for m, c in n.items() if c != 0}
            return r
    if t.k == 'un' and t.a[0] == '-':
        return {m: -c for m, c in poly(t.a[1], atom).items()}
    if t.k == 'call' and t.a[0].k == 'ext' and t.a[0].a[0] in ('numpy.square',) and len(t.a[1]) == 1 and not t.a[2]:
        return poly(mk('bin', '*', t.a[1][0], t.a[1][0]), atom)
    if t.k == 'call' and t.a[0].k == 'ext' and t.a[0].a[0] in ('builtins.int', 'builtins.float') and len(t.a[1]) == 1:
        return poly(t.a[1][0], atom)
    t = atom(t) if atom else t
    return {(t.id,): 1}


def polyeq(a, b, tol=1e-12):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= tol * max(1, abs(a[k])) for k in a)


def open_res(st):
    """Resources that are (possibly) still open in a state: (uid, heap object)."""
    return [(i, h) for i, h in st.heap.items() if h.kind == 'res' and h.data.get('~open', FALSE) is not FALSE]


def poss(t, want, env):
    """Assignments of the atoms (extending env) under which the boolean term t can have the value `want`."""
    if t.k == 'const':
        if bool(t.a[1]) == want:
            yield env
    elif t.k == 'not':
        yield from poss(t.a[0], not want, env)
    elif t.k == 'ite':
        for c in (True, False):
            for e in poss(t.a[0], c, env):
                yield from poss(t.a[1] if c else t.a[2], want, e)
    elif t.k in ('and', 'or'):
        if want == (t.k == 'and'):
            envs = [env]
            for x in t.a:
                envs = [f for e in envs for f in poss(x, want, e)]
            yield from envs
        else:
            for x in t.a:
                yield from poss(x, want, env)
    elif t in env:
        if env[t] == want:
            yield env
    else:
        yield {**env, t: want}


# ---------------------------------------------------------------- structural equality of terms of different runs
_shape = {}
COMM = ('builtins.min', 'builtins.max')


def ordered(t):
    """Components of a term, in an order that does not depend on identifiers where their order has no meaning."""
    if t.k in ('and', 'or'):
        return tuple(sorted(t.a, key=shape))
    if t.k == 'cmp' and t.a[0] in ('==', '!=', 'is', 'isnot'):
        return (t.a[0],) + tuple(sorted(t.a[1:], key=shape))
    if t.k == 'call' and t.a[0].k == 'ext' and t.a[0].a[0] in COMM:
        return (t.a[0], tuple(sorted(t.a[1], key=shape))) + tuple(t.a[2:])
    return t.a


def uid_of(x):
    if isinstance(x, int) and not isinstance(x, bool):
        return x
    if isinstance(x, str) and x[:1] == '#' and x[1:].isdigit():
        return int(x[1:])
    return None


def shape(t):
    """Hash of a term that does not depend on identifiers of loops and objects."""
    if isinstance(t, T):
        h = _shape.get(t.id)
        if h is None:
            _shape[t.id] = h = hash((t.k, t.a)) if t.k == 'const' else hash((t.k, tuple(map(shape, ordered(t)))))
        return h
    if isinstance(t, tuple):
        return hash(tuple(map(shape, t)))
    if uid_of(t) is not None:
        return 0
    return hash(t)


def same(a, b, ids=None, memo=None):
    """Equality of terms up to a consistent renaming of loop and object identifiers."""
    ids = {} if ids is None else ids
    memo = set() if memo is None else memo
    back = {v: k for k, v in ids.items()}

    def eq(x, y):
        if isinstance(x, T):
            if not isinstance(y, T) or x.k != y.k or shape(x) != shape(y):
                return False
            if (x.id, y.id) in memo:
                return True
            if x.k == 'const':
                return x is y
            xs, ys = ordered(x), ordered(y)
            ok = len(xs) == len(ys) and all(eq(p, q) for p, q in zip(xs, ys))
            if ok:
                memo.add((x.id, y.id))
            return ok
        if isinstance(x, tuple):
            return isinstance(y, tuple) and len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        if uid_of(x) is not None:
            x, y = uid_of(x), uid_of(y)
            if x in ids or y in back:
                return ids.get(x) == y and back.get(y) == x
            ids[x], back[y] = y, x
            return True
        return x == y
    return eq(a, b)


def differ(a, b, depth=0):
    """First pair of sub-terms in which two terms differ (for messages)."""
    if isinstance(a, T) and isinstance(b, T) and a.k == b.k and a.k != 'const' and len(a.a) == len(b.a):
        for x, y in zip(a.a, b.a):
            for p, q in zip(x, y) if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) else [(x, y)]:
                if isinstance(p, T) and isinstance(q, T) and shape(p) != shape(q):
                    return differ(p, q)
    return a, b


REMAP = ('src', 'map1', 'map2', 'interpolation', 'dst', 'borderMode', 'borderValue')


def remap_args(e):
    """Arguments of a cv2.remap call event by name; the maps may be passed as an unpacked pair."""
    a = []
    for x in e.data['args']:
        if x.k in ('starred', 'star'):
            y = x.a[0]
            a += [mk('sub', y, const(0)), mk('sub', y, const(1))] if y.k != 'elem' else [mk('sub', y.a[0], const(0)), mk('sub', y.a[0], const(1))]
        else:
            a.append(x)
    d = dict(zip(REMAP, a))
    d.update(e.data['kwargs'])
    return d
