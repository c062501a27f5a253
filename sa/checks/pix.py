"""Abstract interpretation of array programs at one pixel.

A value is the abstraction of what an array holds at the pixel that is followed: not a number, some number, a constant, the nodata value, a masked
value, a coordinate outside the image, or a truth value; Stack holds the coordinates or bands of the pixel one by one.  TOP is anything."""
from .common import *
from .c14 import subterms

TOP, NUM, NAN, NOD, MASKED, OFF = 'anything', 'a number', 'nan', 'nodata', 'masked', 'outside the image'
CLAMP = 'inside'


class Stack(tuple):
    """Values along the first dimension."""


def join(*vs):
    vs = list(vs)
    if all(v == vs[0] and isinstance(v, Stack) == isinstance(vs[0], Stack) and type(v) is type(vs[0]) for v in vs):
        return vs[0]
    if all(isinstance(v, Stack) for v in vs) and all(len(v) == len(vs[0]) for v in vs):
        return Stack(join(*q) for q in zip(*vs))
    if all(v == NUM or num(v) for v in vs):
        return NUM
    return TOP


def num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


from fractions import Fraction

PASSM = ('view', 'astype', 'reshape', 'copy', 'ravel', 'flatten', 'squeeze', 'transpose', '__array__', 'T', 'swapaxes', 'tolist')
PASSF = ('numpy.reshape', 'numpy.ravel', 'numpy.squeeze', 'numpy.copy', 'numpy.ascontiguousarray', 'numpy.transpose', 'numpy.float32', 'numpy.float64', 'numpy.atleast_2d', 'numpy.atleast_3d',
         'numpy.expand_dims', 'numpy.require', 'numpy.bool_', 'numpy.uint8', 'builtins.float', 'builtins.bool', 'numpy.asfortranarray', 'numpy.broadcast_to', 'numpy.tile', 'numpy.moveaxis', 'numpy.flip')
ARITH = ('+', '-', '*', '/', '@', '**', '//', '%')
MATHF = {'dot', 'matmul', 'sqrt', 'square', 'arctan', 'arctan2', 'sin', 'cos', 'tan', 'hypot', 'multiply', 'add', 'subtract', 'divide', 'true_divide', 'power', 'sum', 'prod', 'abs', 'absolute', 'negative', 'clip', 'round', 'rint',
         'floor', 'ceil', 'einsum', 'cross', 'inner', 'linalg.norm', 'exp', 'log', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'around', 'polyval', 'cumsum', 'mean', 'outer', 'vdot', 'arcsin', 'arccos', 'maximum', 'minimum', 'fix', 'trunc'}
LIBNAN = ('cv2.projectPoints', 'cv2.fisheye.projectPoints', 'cv2.undistortPoints', 'cv2.fisheye.undistortPoints', 'cv2.fisheye.distortPoints', 'cv2.convertPointsFromHomogeneous', 'cv2.convertPointsToHomogeneous', 'cv2.transform', 'cv2.perspectiveTransform', 'cv2.gemm')
BOOLF = {'numpy.logical_or': '|', 'numpy.logical_and': '&', 'numpy.bitwise_or': '|', 'numpy.bitwise_and': '&', 'numpy.logical_xor': '^', 'numpy.bitwise_xor': '^'}
STACKF = ('numpy.array', 'numpy.stack', 'numpy.vstack', 'numpy.asarray', 'numpy.row_stack', 'numpy.concatenate', 'numpy.asanyarray')


class Pix:
    """leaf(term, self) gives the scenario: the value of a term, or None to look inside it.  nodata_nan: the nodata value is nan."""

    def __init__(self, leaf, nodata_nan=False):
        self.leaf, self.nn = leaf, nodata_nan
        self.memo, self.lvs = {}, {}
        self.sampled = []

    def ev(self, t):
        if not isinstance(t, T):
            return TOP
        key = (t.id, frozenset(self.lvs.items())) if self.lvs else t.id
        if key in self.memo:
            return self.memo[key]
        v = self.leaf(t, self)
        if v is None:
            v = self.ev_(t)
        self.memo[key] = v
        return v

    def nan(self, v):
        """The truth of isnan()."""
        if isinstance(v, Stack):
            return Stack(self.nan(x) for x in v)
        if v == NAN and isinstance(v, str):
            return True
        if v == NOD and isinstance(v, str):
            return self.nn
        if v in (NUM, OFF) and isinstance(v, str) or num(v) or isinstance(v, bool):
            return False
        return TOP

    def boolean(self, v):
        if isinstance(v, bool):
            return v
        if num(v):
            return v != 0
        return None

    def eq(self, a, b):
        if isinstance(a, Stack) or isinstance(b, Stack):
            if isinstance(a, Stack) and isinstance(b, Stack):
                return Stack(self.eq(x, y) for x, y in zip(a, b)) if len(a) == len(b) else TOP
            s, o = (a, b) if isinstance(a, Stack) else (b, a)
            return Stack(self.eq(x, o) for x in s)
        if self.nan(a) is True or self.nan(b) is True:
            return False
        if a == NOD and b == NOD:
            return True
        if (num(a) or isinstance(a, bool)) and (num(b) or isinstance(b, bool)):
            return a == b
        return TOP

    def neg(self, v):
        if isinstance(v, Stack):
            return Stack(self.neg(x) for x in v)
        b = self.boolean(v)
        return TOP if b is None else not b

    def logic(self, op, vs):
        if any(isinstance(v, Stack) for v in vs):
            n = {len(v) for v in vs if isinstance(v, Stack)}
            if len(n) > 1:
                return TOP
            n = n.pop()
            return Stack(self.logic(op, [v[i] if isinstance(v, Stack) else v for v in vs]) for i in range(n))
        bs = [self.boolean(v) for v in vs]
        if op == '|':
            return True if True in bs else TOP if None in bs else False
        if op == '&':
            return False if False in bs else TOP if None in bs else True
        return TOP if None in bs else sum(bs) % 2 == 1

    def arith(self, op, vs):
        if any(isinstance(v, Stack) for v in vs) and op not in ('@', 'mix'):
            n = {len(v) for v in vs if isinstance(v, Stack)}
            if len(n) == 1:
                n = n.pop()
                return Stack(self.arith(op, [v[i] if isinstance(v, Stack) else v for v in vs]) for i in range(n))
            op = 'mix'
        fl = []
        for v in vs:
            fl += [int(x) if isinstance(x, bool) else x for x in flat(v)]
        if any(self.nan(v) is True for v in fl):
            return NAN
        if any(v == TOP and isinstance(v, str) for v in fl):
            return TOP
        if op in ('+', '-', '*') and len(fl) == 2 and all(num(v) for v in fl):
            a, b = fl
            return {'+': a + b, '-': a - b, '*': a * b}[op]
        return NUM

    def reduce(self, v, how):
        """any() or all() along the first dimension."""
        if isinstance(v, Stack):
            return self.logic('|' if how == 'any' else '&', list(v))
        b = self.boolean(v)
        return TOP if b is None else b

    def mask(self, i):
        """Truth of a boolean index at the pixel: True, False, None if unknown, or 'pos' if the index is not a mask."""
        if i.k == 'tuple':
            r = [self.mask(x) for x in i.a]
            r = [x for x in r if x != 'pos']
            return 'pos' if not r else r[0] if len(r) == 1 else None
        if i.k == 'slice' or i is mk('ellipsis'):
            return 'pos'
        ok, p = pyval(i)
        if ok and not isinstance(p, bool):
            return 'pos'
        if i.k in ('elem', 'loopvar', 'iter'):
            return 'pos'
        v = self.ev(i)
        if isinstance(v, Stack):
            return None
        b = v if isinstance(v, bool) else None
        return b

    def ev_(self, t):
        k = t.k
        ok, p = pyval(t)
        if ok and k not in ('tuple', 'list'):
            return NAN if isinstance(p, float) and p != p else p if isinstance(p, (bool, int, float)) else TOP
        if k == 'ext':
            return NAN if t.a[0] in ('numpy.nan', 'math.nan', 'numpy.NaN') else TOP
        if k == 'ite':
            c = self.ev(t.a[0])
            b = self.boolean(c)
            if b is not None:
                return self.ev(t.a[1] if b else t.a[2])
            return join(self.ev(t.a[1]), self.ev(t.a[2]))
        if k == 'truth':
            return self.ev(t.a[0])
        if k in ('and', 'or'):
            return self.logic('&' if k == 'and' else '|', [self.ev(x) for x in t.a])
        if k == 'not':
            return self.neg(self.ev(t.a[0]))
        if k == 'un':
            v = self.ev(t.a[1])
            if t.a[0] == '~' or t.a[0] == 'not':
                if isinstance(v, bool) or isinstance(v, Stack):
                    return self.neg(v)
                return TOP
            if t.a[0] == '-' and num(v):
                return -v
            return self.arith('+', [v, v]) if t.a[0] == '-' else v
        if k == 'cmp' and t.a[0] in ('is', 'isnot') and NONE in t.a[1:]:
            x = t.a[1] if t.a[2] is NONE else t.a[2]
            n = True if x is NONE else False if self.made(x) else None
            return TOP if n is None else n == (t.a[0] == 'is')
        if k == 'cmp':
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            if t.a[0] == '==':
                return self.eq(a, b)
            if t.a[0] == '!=':
                return self.neg(self.eq(a, b))
            if t.a[0] in ('<', '>', '<=', '>='):
                if self.nan(a) is True or self.nan(b) is True:
                    return False
                if num(a) and num(b):
                    return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[t.a[0]]
            return TOP
        if k == 'bin':
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            if t.a[0] in '|&^':
                return self.logic(t.a[0], [a, b])
            return self.arith(t.a[0], [a, b])
        if k in ('tuple', 'list'):
            out = []
            for x in t.a:
                if x.k in ('starred', 'star'):
                    v = self.ev(x.a[0])
                    if not isinstance(v, Stack):
                        return v
                    out += v
                else:
                    out.append(self.ev(x))
            return Stack(out)
        if k == 'upd':
            m = self.mask(t.a[1])
            if m is False:
                return self.ev(t.a[0])
            if m is True:
                return self.ev(t.a[2])
            b, v = self.ev(t.a[0]), self.ev(t.a[2])
            if m == 'pos':
                i = t.a[1]
                while i.k == 'tuple' and len(i.a) == 1:
                    i = i.a[0]
                if i.k == 'slice' and all(z is NONE for z in i.a) or i is mk('ellipsis'):
                    return v
                ok, q = pyval(i)
                if ok and isinstance(q, int) and isinstance(b, Stack) and -len(b) <= q < len(b):
                    b = list(b)
                    b[q] = v
                    return Stack(b)
            i = t.a[1]
            while i.k == 'tuple' and len(i.a) == 1:
                i = i.a[0]
            if m is None and not isinstance(b, Stack):
                mv = self.ev(i)
                if isinstance(mv, Stack) and not isinstance(v, Stack):
                    return Stack(v if x is True else b if x is False else join(b, v) for x in mv)
            if m is None and isinstance(b, Stack):
                mv = self.ev(i)
                if isinstance(mv, Stack) and len(mv) == len(b) and not isinstance(v, Stack):
                    return Stack(v if x is True else y if x is False else join(y, v) for x, y in zip(mv, b))
            if isinstance(b, Stack) and not isinstance(v, Stack):
                return Stack(join(x, v) for x in b)
            return join(b, v)
        if k == 'lv':
            return self.lvs[t.a[:2]] if t.a[:2] in self.lvs else self.ev(t.a[2])
        if k == 'elem':
            if ('elem', t.id) in self.lvs:
                return self.lvs['elem', t.id]
            v = self.ev(t.a[0])
            return join(*v) if isinstance(v, Stack) and v else TOP
        if k == 'after':
            key = t.a[:2]
            v = self.ev(t.a[2])
            els = [x for x in subterms(t.a[3]) if x.k == 'elem' and x.a[1] == t.a[0]]
            seq = [self.passes(x, t.a[3]) for x in els]
            if els and all(seq) and len({len(q) for q in seq}) == 1:
                for vals in zip(*seq):
                    self.lvs[key] = v
                    for x, y in zip(els, vals):
                        self.lvs['elem', x.id] = y
                    v = self.ev(t.a[3])
                    del self.lvs[key]
                    for x in els:
                        del self.lvs['elem', x.id]
                return v
            for _ in range(6):
                self.lvs[key] = v
                w = join(v, self.ev(t.a[3]))
                if w == v:
                    break
                v = w
            del self.lvs[key]
            return v
        if k == 'sub':
            return self.sub(t)
        if k == 'attr':
            if t.a[1] == 'T':
                return self.ev(t.a[0])
            if t.a[1] == 'data':
                v = self.ev(t.a[0])
                return NUM if v == MASKED else v
            if t.a[1] == 'mask':
                v = self.ev(t.a[0])
                return True if v == MASKED else False if v in (NUM, OFF) else TOP
            return TOP
        if k in ('copyof', 'outof'):
            return self.ev(t.a[0])
        if k == 'call':
            return self.call(t)
        return TOP

    def made(self, x):
        """The result of a library function that returns arrays."""
        return x.k == 'call' and (callname(x) or '').startswith(('cv2.', 'numpy.')) or x.k in ('tuple', 'list', 'dict') or x.k == 'sub' and self.made(x.a[0])

    def sub(self, t):
        x, i = t.a
        if x.k == 'call' and x.a[0].k != 'attr' and callname(x) == 'rasterio.warp.reproject' and pyval(i) == (True, 0):
            return self.reproject(x)
        v = self.ev(x)
        ok, p = self.index(i)
        if isinstance(v, Stack):
            if ok and isinstance(p, int) and not isinstance(p, bool):
                return v[p] if -len(v) <= p < len(v) else TOP
            if i.k == 'tuple' and i.a:
                ok, p = self.index(i.a[0])
                if ok and isinstance(p, int):
                    return v[p] if -len(v) <= p < len(v) else TOP
                if i.a[0].k == 'slice':
                    return self.cut(v, i.a[0])
                return v
            if i.k == 'slice':
                return self.cut(v, i)
            m = self.mask(i)
            return v if m == 'pos' or m is True else TOP
        return v

    def passes(self, x, body):
        """The values of a loop variable in each pass, if they are known."""
        it = x.a[0]
        if it.k == 'call' and callname(it) == 'builtins.range' and not it.a[2]:
            a = it.a[1]
            if len(a) == 2 and pyval(a[0]) == (True, 0):
                a = a[1:]
            if len(a) != 1:
                return None
            ok, p = pyval(a[0])
            if ok:
                return list(range(p)) if isinstance(p, int) and p < 10 else None
            y = a[0]
            y = y.a[1][0] if y.k == 'call' and callname(y) == 'builtins.len' and y.a[1] else y.a[0].a[0] if y.k == 'sub' and y.a[0].k == 'attr' and y.a[0].a[1] == 'shape' and pyval(y.a[1]) == (True, 0) else None
            v = self.ev(y) if y is not None else None
            return list(range(len(v))) if isinstance(v, Stack) else None
        v = self.ev(it)
        return list(v) if isinstance(v, Stack) and v else None

    def index(self, i):
        if ('elem', i.id) in self.lvs and isinstance(self.lvs['elem', i.id], int):
            return True, self.lvs['elem', i.id]
        return pyval(i)

    def cut(self, v, s):
        p = [pyval(z) if z is not NONE else (True, None) for z in s.a]
        if all(o and (q is None or isinstance(q, int)) for o, q in p):
            return Stack(v[slice(*[q for _, q in p])])
        return TOP

    def reproject(self, x):
        kw = dict(zip(('source', 'destination', 'src_transform', 'gcps', 'rpcs', 'src_crs', 'src_nodata', 'dst_transform', 'dst_crs', 'dst_nodata', 'dst_resolution'), x.a[1]), **dict(x.a[2]))
        s = self.ev(kw['source'])
        sn = self.ev(kw['src_nodata']) if 'src_nodata' in kw else TOP
        # rasterio falls back to the source value when the destination value is left out, None or zero
        dn = kw.get('dst_nodata', NONE)
        dn = sn if dn is NONE or pyval(dn) in ((True, 0), (True, None)) else self.ev(dn)
        init = pyval(kw['init_dest_nodata']) if 'init_dest_nodata' in kw else (True, True)
        dest = kw.get('destination', NONE)
        if s == NUM:
            return NUM
        if s == OFF:           # not covered by the source
            s = NAN
        if s == NAN and sn == NAN:
            if init == (True, True):
                return dn
            return self.ev(dest) if dest is not NONE else TOP
        return TOP

    def call(self, t):
        f = t.a[0]
        n = callname(t)
        kw = dict(t.a[2])
        args = list(t.a[1])
        if f.k == 'attr':
            o, m = f.a
            if m in PASSM:
                v = self.ev(o)
                if m in ('view', 'astype') and args and ('bool' in show(args[0], 2)):
                    b = self.boolean(v)
                    return b if b is not None else v if isinstance(v, Stack) else TOP
                if m == 'astype' and args and v == NAN and any(q in show(args[0], 2) for q in ('int',)):
                    return TOP
                return v
            if m == 'filled':
                v = self.ev(o)
                return self.ev(args[0] if args else kw['fill_value']) if v == MASKED and (args or 'fill_value' in kw) else TOP if v == MASKED else v
            if m in ('any', 'all'):
                return self.reduce(self.ev(o), m)
            if m in ('max', 'min') and len(args) + len(kw) == 0 or m in ('max', 'min'):
                v = self.ev(o)
                if isinstance(v, Stack) and all(isinstance(q, bool) for q in v):
                    return self.reduce(v, 'any' if m == 'max' else 'all')
                return v if isinstance(v, bool) else TOP
            if m in ('dot', 'sum', 'clip', 'round', 'prod'):
                return self.arith('@' if m == 'dot' else 'mix', [self.ev(o)] + [self.ev(a) for a in args])
            return TOP
        if n is None:
            return TOP
        if n in ('numpy.isnan', 'math.isnan'):
            return self.nan(self.ev(args[0]))
        if n in ('numpy.isfinite', 'math.isfinite'):
            return self.neg(self.nan(self.ev(args[0])))
        if n in ('numpy.all', 'numpy.any', 'builtins.all', 'builtins.any', 'numpy.logical_or.reduce', 'numpy.logical_and.reduce'):
            return self.reduce(self.ev(args[0]), 'any' if n.endswith('any') or 'or.' in n else 'all')
        if n in BOOLF:
            return self.logic(BOOLF[n], [self.ev(a) for a in args[:2]])
        if n in ('numpy.logical_not', 'numpy.invert', 'numpy.bitwise_not'):
            v = self.ev(args[0])
            return self.neg(v) if isinstance(v, (bool, Stack)) or n == 'numpy.logical_not' else TOP
        if n in ('numpy.equal', 'numpy.not_equal'):
            v = self.eq(self.ev(args[0]), self.ev(args[1]))
            return v if n == 'numpy.equal' else self.neg(v)
        if n == 'numpy.where' and len(args) == 3:
            c, a, b = (self.ev(x) for x in args)
            if isinstance(c, Stack):
                n_ = len(c)
                g = lambda v, i: v[i] if isinstance(v, Stack) else v
                if any(isinstance(v, Stack) and len(v) != n_ for v in (a, b)):
                    return TOP
                return Stack(g(a, i) if c[i] is True else g(b, i) if c[i] is False else join(g(a, i), g(b, i)) for i in range(n_))
            q = self.boolean(c)
            return a if q is True else b if q is False else join(a, b)
        if n == 'numpy.nan_to_num':
            v = self.ev(args[0])
            r = self.ev(kw['nan']) if 'nan' in kw else self.ev(args[2]) if len(args) > 2 else 0.
            f = lambda x: r if self.nan(x) is True else x if self.nan(x) is False else TOP
            return Stack(f(x) for x in v) if isinstance(v, Stack) else f(v)
        if n in ('numpy.full', 'numpy.full_like'):
            return self.ev(kw['fill_value'] if 'fill_value' in kw else args[1]) if 'fill_value' in kw or len(args) > 1 else TOP
        if n in ('numpy.zeros', 'numpy.zeros_like'):
            return 0
        if n in ('numpy.ones', 'numpy.ones_like'):
            return 1
        if n == 'numpy.ma.filled' and args:
            v = self.ev(args[0])
            return self.ev(args[1] if len(args) > 1 else kw['fill_value']) if v == MASKED and (len(args) > 1 or 'fill_value' in kw) else TOP if v == MASKED else v
        if n == 'numpy.ma.getmaskarray' or n == 'numpy.ma.getmask':
            v = self.ev(args[0])
            return True if v == MASKED else False if v in (NUM, OFF) else TOP
        if n == 'numpy.ma.getdata':
            v = self.ev(args[0])
            return NUM if v == MASKED else v
        if n in STACKF and args:
            return self.ev(args[0])
        if n in PASSF and args:
            return self.ev(args[0])
        if n == 'cv2.dilate':
            v = self.ev(args[0])
            return v if self.boolean(v) is True else TOP
        if n == 'cv2.erode':
            v = self.ev(args[0])
            return v if self.boolean(v) is False else TOP
        if n == 'cv2.remap':
            return self.remap(t)
        if n == 'cv2.split' and args:
            return self.ev(args[0])
        if n in LIBNAN:
            vs = [self.ev(a) for a in args[:1]]
            v = self.arith('mix', vs)
            return Stack((v, TOP)) if n.endswith('projectPoints') else v
        if n.startswith('numpy.') and n[6:] in MATHF:
            vs = [self.ev(a) for a in args]
            op = {'add': '+', 'subtract': '-', 'multiply': '*', 'dot': '@', 'matmul': '@', 'einsum': '@', 'cross': '@', 'sum': 'mix', 'prod': 'mix', 'linalg.norm': 'mix', 'mean': 'mix'}.get(n[6:], '/')
            if n[6:] == 'einsum':
                vs = vs[1:]
            return self.arith(op, vs)
        return TOP

    def remap(self, t):
        """One sample of an image: nothing is written where the coordinates are outside it, if the border is transparent."""
        args = []
        for a in t.a[1]:
            if a.k in ('starred', 'star'):
                args += [mk('sub', a.a[0], const(i)) for i in range(2)]
            else:
                args.append(a)
        kw = dict(zip(('src', 'map1', 'map2', 'interpolation', 'dst', 'borderMode', 'borderValue'), args), **dict(t.a[2]))
        maps = [self.ev(kw[k]) if k in kw else TOP for k in ('map1', 'map2')]
        if isinstance(maps[0], Stack):
            maps = list(maps[0])
        if any(m == NAN for m in maps):
            self.sampled.append('nan')
            return TOP
        out = any(m == OFF and isinstance(m, str) or num(m) and m <= -1 for m in maps)
        if not out:
            return NUM if all(m == NUM for m in maps) else TOP
        bm = kw.get('borderMode')
        if bm is not None and bm.k == 'ext' and bm.a[0] == 'cv2.BORDER_TRANSPARENT':
            return self.ev(kw['dst']) if 'dst' in kw else TOP
        return TOP


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, Stack) else [v]
