"""C32: windows rounded to whole pixels and crops to a mask contain what they were made for (linear forms with signed rounding errors)."""
from fractions import Fraction
from .geo import *

FLOOR = ('numpy.floor', 'math.floor')
CEIL = ('numpy.ceil', 'math.ceil')
SAME = ('builtins.int', 'builtins.float', 'numpy.int32', 'numpy.int64', 'numpy.float64', 'numpy.array', 'numpy.asarray', 'numpy.abs')
WIN = ('col_off', 'row_off', 'width', 'height')


INNER = {}


MIN = {'min', 'amin', 'nanmin', 'argmin', 'nanargmin', 'fmin'}
MAX = {'max', 'amax', 'nanmax', 'argmax', 'nanargmax', 'fmax'}


class Lin:
    """Linear combination of atoms; atoms ('d', X) and ('c', X) are the rounding errors X - floor(X) and ceil(X) - X, between 0 and 1."""

    def __init__(self, c=0, m=None):
        self.c, self.m = Fraction(c), {k: Fraction(v) for k, v in (m or {}).items() if v}

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Lin(self.c + o.c, m)

    def __mul__(self, s):
        return Lin(self.c * s, {k: v * s for k, v in self.m.items()})

    def __sub__(self, o):
        return self + o * -1

    def key(self):
        return self.c, tuple(sorted(((str(k), v) for k, v in self.m.items())))

    def whole(self):
        """The value is an integer: a rounded value, or integers only."""
        v, todo = self, True
        while todo:
            todo = [(k, c) for k, c in v.m.items() if k[0] in 'dc' and c.denominator == 1]
            for k, c in todo:
                # X - floor(X) is X, and ceil(X) - X is -X, up to an integer
                v = v + Lin(0, {k: -c}) + INNER[k] * (c if k[0] == 'd' else -c)
        return v.c.denominator == 1 and all(k[0] == 'i' and c.denominator == 1 for k, c in v.m.items())

    def sign(self):
        """-1, 0 or 1 if the value is never positive, is zero, or is never negative; None if it can be both."""
        if any(k[0] not in 'dc' for k in self.m):
            return None
        vs = list(self.m.values()) + [self.c]
        # errors are less than one
        if all(v >= 0 for v in vs):
            return 1 if any(vs) else 0
        if all(v <= 0 for v in vs):
            return -1
        if self.c > 0 and self.c + sum(v for v in self.m.values() if v < 0) >= 0:
            return 1
        if self.c < 0 and self.c + sum(v for v in self.m.values() if v > 0) <= 0:
            return -1
        return None


def err(kind, x):
    if x.whole():
        return Lin()
    k = (kind, str(x.key()))
    INNER[k] = x
    return Lin(0, {k: 1})


def linear(t):
    ok, v = pyval(t)
    if ok and isinstance(v, (int, float)) and not isinstance(v, bool) and v == v:
        return Lin(Fraction(v))
    if t.k == 'bin':
        op, a, b = t.a
        if op in '+-':
            return linear(a) + linear(b) * (1 if op == '+' else -1)
        x, y = linear(a), linear(b)
        if op == '*' and (not x.m or not y.m):
            return y * x.c if not x.m else x * y.c
        if op == '/' and not y.m and y.c:
            return x * (1 / y.c)
        if op == '//' and not y.m and y.c == 1:
            return x - err('d', x)
        if op == '%' and not y.m and y.c == 1:
            return err('d', x)
    if t.k == 'neg' or t.k == 'un' and t.a[0] == '-':
        return linear(t.a[-1]) * -1
    if t.k == 'call' and t.a[1]:
        n = callname(t)
        if n in FLOOR or n == 'numpy.trunc' or n == 'numpy.floor_divide' and len(t.a[1]) == 2 and pyval(t.a[1][1]) == (True, 1):
            x = linear(t.a[1][0])
            return x - err('d', x)
        if n in CEIL:
            x = linear(t.a[1][0])
            return x + err('c', x)
        if n in ('numpy.round', 'builtins.round', 'numpy.rint', 'numpy.around'):
            x = linear(t.a[1][0])
            return x if x.whole() else x + Lin(0, {('r', str(x.key())): 1})
        if n == 'builtins.int':
            x = linear(t.a[1][0])
            return x - err('d', x)
        if n in SAME:
            return linear(t.a[1][0])
    if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] in ('astype', 'item'):
        x = linear(t.a[0].a[0])
        return x - err('d', x) if t.a[0].a[1] == 'astype' else x
    if t.k == 'sub' and callname(t.a[0]) in ('numpy.divmod', 'builtins.divmod') and len(t.a[0].a[1]) == 2 and pyval(t.a[0].a[1][1]) == (True, 1):
        x = linear(t.a[0].a[1][0])
        if pyval(t.a[1]) == (True, 0):
            return x - err('d', x)
        if pyval(t.a[1]) == (True, 1):
            return err('d', x)
    if t.k == 'attr' and t.a[1] in WIN:
        return Lin(0, {('w', t.a[0].id, t.a[1]): 1})
    m = extreme(t)
    if m is not None:
        return Lin(0, {('i', m[0], m[1].id): 1})
    return Lin(0, {('t', t.id): 1})


def extreme(t):
    """('min' or 'max', indexes) for the smallest or largest of the indexes where something holds."""
    x = n = None
    if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] in ('min', 'max') and not t.a[1]:
        x, n = t.a[0].a[0], t.a[0].a[1]
    elif t.k == 'call' and callname(t) in ('numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax', 'builtins.min', 'builtins.max') and len(t.a[1]) == 1:
        x, n = t.a[1][0], callname(t)[-3:]
    elif t.k == 'sub' and pyval(t.a[1]) in ((True, 0), (True, -1)):
        x, n = t.a[0], 'min' if pyval(t.a[1]) == (True, 0) else 'max'
    if x is None:
        return None
    w = x
    if w.k == 'sub' and callname(w.a[0]) in ('numpy.where', 'numpy.nonzero') and len(w.a[0].a[1]) == 1:
        return n, x
    if callname(w) == 'numpy.flatnonzero' or w.k == 'sub' and callname(w.a[0]) == '.nonzero':
        return n, x
    return None


def windows(g):
    """(label, start - wanted start, stop - wanted stop, where) for windows made from another one."""
    for e in g.events:
        if e.kind not in ('call', 'new') or not e.name.endswith('windows.Window'):
            continue
        a = dict(zip(WIN, [g.term(x) for x in e.data['args']]), **{k: g.term(v) for k, v in e.data['kwargs'].items()})
        if set(a) != set(WIN):
            continue
        L = {k: linear(v) for k, v in a.items()}
        base = {k[1] for v in L.values() for k in v.m if k[0] == 'w'}
        if len(base) != 1:
            continue
        b, = base
        for off, size in (('col_off', 'width'), ('row_off', 'height')):
            if L[off].m.get(('w', b, off)) != 1 or L[size].m.get(('w', b, size)) != 1:
                continue
            w0 = Lin(0, {('w', b, off): 1})
            w1 = w0 + Lin(0, {('w', b, size): 1})
            yield f'window, {off}', L[off] - w0, L[off] + L[size] - w1, where(e)


def crops(g, ts):
    """The same for slices from the first to the last index of a mask."""
    seen = set()
    for e, t in ts:
        for x in subterms(t):
            if x.k != 'slice' or x.id in seen or x.a[0] is NONE or x.a[1] is NONE:
                continue
            seen.add(x.id)
            a, b = linear(x.a[0]), linear(x.a[1])
            ka = [k for k in a.m if k[0] == 'i']
            kb = [k for k in b.m if k[0] == 'i']
            if not ka and not kb:
                continue
            ia = {k[2] for k in ka} | {k[2] for k in kb}
            if len(ia) != 1:
                yield 'crop', None, None, where(e)
                continue
            i, = ia
            yield 'crop to a mask', a - Lin(0, {('i', 'min', i): 1}), b - Lin(1, {('i', 'max', i): 1}), where(e)


def is_dem(t):
    """An array read from the DEM (its values, or a part of them)."""
    while True:
        if t.k == 'call' and callname(t) == '.read':
            return 'dem_file' in syms(t.a[0])
        if t.k in ('sub', 'attr'):
            t = t.a[0]
        elif t.k == 'call' and t.a[0].k == 'attr':
            t = t.a[0].a[0]
        elif t.k == 'call' and (callname(t) or '').startswith('numpy.') and t.a[1]:
            t = t.a[1][0]
        else:
            return False


def check(ctx):
    ctx.rule('kept', 'the first pixel of a window or crop is not after, and its last pixel not before, that of what it is made for', 1)
    ctx.rule('heights', 'the portion of the DEM for an image is determined for its lowest and its highest elevation', 0)
    g = geo(ctx.repo, False)
    ctx.seen(g.E, 'Ortho')
    todo = [(lab, a, b, w) for lab, a, b, w in windows(g)]
    zs = []
    for e in g.cam_calls('remap'):
        a = dict(zip(('im_array', 'x', 'y', 'z'), [g.term(x) for x in e.data['args']]), **{k: g.term(v) for k, v in e.data['kwargs'].items()})
        if 'z' in a:
            zs.append((e, a['z']))
    todo += list(crops(g, zs))
    low, high = set(), set()
    for e in g.cam_calls('world_boundary'):
        for v in list(e.data['args'][:1]) + [e.data['kwargs'][k] for k in ('z',) if k in e.data['kwargs']]:
            for x in subterms(g.term(v)):
                n = (callname(x) or '').split('.')[-1] if x.k == 'call' else ''
                if n in MIN | MAX and is_dem(x.a[1][0] if x.a[1] and callname(x)[0] != '.' else x.a[0].a[0] if x.a[0].k == 'attr' else x):
                    (low if n in MIN else high).add(e)
    if low or high:
        ctx.ob('heights', 'the portion of the DEM that is stored', bool(low and high), f"only the {'lowest' if low else 'highest'} elevation is taken account of", where(list(low or high)[0]))
    for m in ('both', 'pan'):
        try:
            h = pangeo(ctx.repo, m)
        except KeyError:
            continue
        ctx.seen(h.E, 'PanSharpen')
        todo += [('PanSharpen ' + lab, a, b, w) for lab, a, b, w in windows(h)]
    for lab, a, b, w in todo:
        if a is None:
            ctx.ob('kept', f'{lab} in {w}', False, 'it starts at an index of one mask and stops at one of another', w)
            continue
        s, t = a.sign(), b.sign()
        ok = s in (0, -1) and t in (0, 1)
        ctx.ob('kept', f'{lab} in {w}', ok, 'pixels ' + ('at the start' if s not in (0, -1) else 'at the end') + ' are cut off', w)
