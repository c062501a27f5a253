"""Georeferencing of arrays and coordinates, as an abstract interpretation of one orthorectification with a symbolic camera.

Affine transforms are matrices in the algebra of rational functions (north up), arrays have the pixel offset of their first element in the
grid they were taken from, and coordinates have an axis and the CRS they are in."""
from functools import lru_cache
from .common import *
from .. import scen
from ..rows import *
from ..scen import OUT_KW, Q
from .c14 import subterms
from .c28 import FULL, TooBig, unstar

TYPES = dict(cam=('Camera',), src_file=('DatasetReader',), dem_file=('DatasetReader',), crs=('CRS',), resolution=('tuple',), out_file=('str',))


class Aff:
    """North up affine transform: x = a * col + c, y = e * row + f, from a named grid."""

    def __init__(self, m, grid=None, inv=False):
        self.m, self.grid, self.inv = m, grid, inv

    def __mul__(self, o):
        (a, b, c), (d, e, f) = self.m
        (g, h, i), (j, k, l) = o.m
        return Aff([[a * g + b * j, a * h + b * k, a * i + b * l + c], [d * g + e * j, d * h + e * k, d * i + e * l + f]], self.grid or o.grid, self.inv)

    def apply(self, x, y):
        return [r[0] * x + r[1] * y + r[2] for r in self.m]

    def inverse(self):
        (a, b, c), (d, e, f) = self.m
        n = a * e - b * d
        i = [[e / n, -b / n], [-d / n, a / n]]
        return Aff([[r[0], r[1], -(r[0] * c + r[1] * f)] for r in i], self.grid, not self.inv)

    def key(self):
        return ('aff', tuple(x.key() for r in self.m for x in r))

    def __eq__(self, o):
        return isinstance(o, Aff) and all(x == y for p, q in zip(self.m, o.m) for x, y in zip(p, q))

    __hash__ = None


def base(grid):
    z = rat(0)
    return Aff([[scalar(f'a@{grid}'), z, scalar(f'c@{grid}')], [z, scalar(f'e@{grid}'), scalar(f'f@{grid}')]], grid)


def translation(x, y):
    return Aff([[rat(1), rat(0), x], [rat(0), rat(1), y]])


ATTR = {'a': (0, 0), 'b': (0, 1), 'c': (0, 2), 'd': (1, 0), 'e': (1, 1), 'f': (1, 2), 'xoff': (0, 2), 'yoff': (1, 2)}
PASS = ('astype', 'filled', 'copy', 'squeeze', '__array__', 'view')
PASSF = ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.ascontiguousarray', 'numpy.squeeze', 'numpy.ma.filled', 'numpy.ma.array', 'numpy.where', 'numpy.asanyarray')


def fold_base(x):
    if x.k == 'truth' and x.a[0].k == 'sym' and x.a[0].a[0] in ('crs', 'resolution', 'write_mask'):
        return TRUE
    if x.k == 'isinst':
        if x.a[0].k == 'sym' and x.a[0].a[0] in ('dem_file', 'src_file'):
            return TRUE
        if x.a[0].k == 'attr' and x.a[0].a[1] == 'fs':
            return TRUE
    return None


class Geo:
    def __init__(self, repo, equal):
        """equal: the DEM has the CRS and resolution of the ortho (True), its resolution ('res'), its CRS and x resolution ('crs'), or another CRS (False)."""
        self.E = E = scen.new(repo, **TYPES)
        self.equal = equal
        self.o, self.esc, self.ev0 = E.run(E.modvar(Q + 'ortho', 'Ortho'), [S('src_file'), S('dem_file'), S('cam')], dict(crs=S('crs'), dem_band=S('dem_band')))
        self.ev1 = []
        if self.o is not None:
            _, esc, self.ev1 = E.run(E.getattr_(self.o, 'process'), [S('out_file')], dict(
                resolution=S('resolution'), interp=S('interp'), dem_interp=S('dem_interp'), per_band=S('per_band'), progress=S('progress'), **OUT_KW))
        self.events = list(self.ev0) + list(self.ev1)
        self.affs = {}
        self.A = Algebra(lens=dict(resolution=2), opaque=self.opaque, lim=FULL, dotlim=FULL, generic=True)
        self.A.truth = self.truth
        self.memo = {}
        self.errs = []

    # ------------------------------------------------------------ terms
    def term(self, v):
        if v is None:
            return None
        t = self.E.freeze(v)
        if t.id not in self.memo:
            self.memo[t.id] = simp(simp(t, self.fold), self.fold)
        return self.memo[t.id]

    def fold(self, x):
        b = fold_base(x)
        if b is not None:
            return b
        if x.k == 'cmp' and x.a[0] in ('==', '!='):
            f = {self.frame(x.a[1]), self.frame(x.a[2])}
            if f == {'world', 'dem'}:
                return TRUE if (x.a[0] == '==') == (self.equal in (True, 'crs')) else FALSE
        if self.equal and 'resolution' in (syms(x) if x.k in ('call', 'cmp') or x.k == 'truth' and x.a[0].k == 'call' else ()):
            r = self.same_res(x.a[0] if x.k == 'truth' else x)
            if r is not None:
                return const(r)
        return None

    def same_res(self, x):
        """Truth of a comparison of the resolutions of DEM and ortho."""
        n = callname(x) if x.k == 'call' else None
        y = self.equal != 'crs'
        if n in ('numpy.all', 'builtins.all', 'numpy.any', 'builtins.any', '.all', '.any'):
            c = x.a[0].a[0] if n[0] == '.' else x.a[1][0] if x.a[1] else None
            if c is None:
                return None
            if c.k in ('list', 'tuple') and not any(z.k in ('star', 'starred') for z in c.a):
                q = [self.same_res(z) for z in c.a]
                if None in q:
                    return None
                return all(q) if n.endswith('all') else any(q)
            while c.k in ('list', 'tuple') and len(c.a) == 1 and c.a[0].k == 'star' or c.k in ('call', 'truth') and callname(c) in (None, 'numpy.array'):
                c = c.a[0].a[0] if c.k in ('list', 'tuple') else c.a[0] if c.k == 'truth' else c.a[1][0]
            neg = c.k == 'not' or callname(c) in ('numpy.logical_not', 'numpy.invert') or c.k == 'un' and c.a[0] in ('~', 'not')
            if neg:
                c = c.a[-1] if c.k != 'call' else c.a[1][0]
            op = c.a[0] if c.k == 'cmp' else {'numpy.equal': '==', 'numpy.isclose': '==', 'numpy.not_equal': '!='}.get(callname(c))
            if op not in ('==', '!='):
                return None
            e = (True, y) if (op == '==') != neg else (False, not y)
            return all(e) if n.endswith('all') else any(e)
        if n in ('numpy.array_equal', 'numpy.allclose'):
            return y
        if n in ('numpy.isclose', 'math.isclose', 'numpy.equal') or x.k == 'cmp' and x.a[0] in ('==', '!='):
            idx = {pyval(z.a[1]) for z in walk(x) if z.k == 'sub' and 'resolution' in syms(z.a[0])}
            if len(idx) == 1 and list(idx)[0] in ((True, 0), (True, 1)):
                r = y or list(idx)[0] == (True, 0)
                return r == (x.k != 'cmp' or x.a[0] == '==')
            if x.k == 'cmp' and not idx and any(z.k in ('tuple', 'list') or callname(z) in ('builtins.tuple', 'builtins.list', '.tolist') for z in x.a[1:]):
                return y == (x.a[0] == '==')
        return None

    def truth(self, c):
        r = self.fold(c)
        if r is not None:
            return r is TRUE
        if c.k == 'cmp' and c.a[0] in ('==', '!=') and not pyval(c.a[1])[0] and not pyval(c.a[2])[0]:
            return None
        return Algebra.truth(self.A, c)

    def frame(self, t):
        """World, DEM or geographic CRS."""
        if t is None:
            return None
        if t.k == 'sym' and t.a[0] == 'crs':
            return 'world'
        if t.k == 'attr' and t.a[1] == 'crs' and t.a[0].k == 'sym':
            return {'dem_file': 'dem', 'src_file': 'src', 'cam': 'world'}.get(t.a[0].a[0])
        if t.k == 'call' and callname(t) in ('rasterio.crs.CRS.from_string', 'rasterio.crs.CRS.from_user_input') and t.a[1]:
            return self.frame(t.a[1][0])
        if t.k == 'call' and (callname(t) or '').startswith('rasterio.crs.CRS.') and '4979' in show(t, 3):
            return 'lla'
        if t.k == 'ite':
            f = {self.frame(x) for x in t.a[1:] if x is not NONE}
            return f.pop() if len(f) == 1 else None
        return None

    # ------------------------------------------------------------ affine transforms
    def aff(self, t):
        if t.id not in self.affs:
            self.affs[t.id] = None
            self.affs[t.id] = self.aff_(t)
        return self.affs[t.id]

    def aff_(self, t):
        n = callname(t) if t.k == 'call' else None
        if t.k == 'attr' and t.a[1] == 'transform':
            x = t.a[0]
            if x.k == 'sym':
                return base({'dem_file': 'dem', 'src_file': 'src'}.get(x.a[0], x.a[0]))
            if self.is_out(x):
                return base('out')
        if t.k == 'sub' and pyval(t.a[1]) == (True, 'transform') and t.a[0].k == 'attr' and t.a[0].a[1] in ('profile', 'meta') and self.is_out(t.a[0].a[0]):
            return base('out')
        if t.k == 'sub' and t.a[0].k == 'call' and callname(t.a[0]) == 'rasterio.warp.reproject' and pyval(t.a[1]) == (True, 1):
            return base('reproj')
        if n == 'affine.Affine.translation' or n == 'rasterio.Affine.translation':
            v = [self.num(x) for x in t.a[1][:2]]
            return translation(*v) if len(v) == 2 and not any(q is None for q in v) else None
        if n in ('affine.Affine.identity',):
            return translation(rat(0), rat(0))
        if n == 'affine.Affine' and len(t.a[1]) >= 6:
            v = [self.num(x) for x in t.a[1][:6]]
            if any(q is None for q in v):
                return None
            return Aff([v[:3], v[3:]])
        if n == 'rasterio.windows.transform' and len(t.a[1]) + len(t.a[2]) == 2:
            a = dict(zip(('window', 'transform'), t.a[1]), **dict(t.a[2]))
            T = self.aff(a['transform'])
            return None if T is None else self.windowed(T, a['window'])
        if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] == 'window_transform':
            T = self.aff(mk('attr', t.a[0].a[0], 'transform'))
            return None if T is None else self.windowed(T, t.a[1][0] if t.a[1] else dict(t.a[2]).get('window'))
        if t.k == 'bin' and t.a[0] in ('*', '@'):
            p, q = self.aff(t.a[1]), self.aff(t.a[2])
            return p * q if p is not None and q is not None else None
        if t.k == 'un' and t.a[0] == '~':
            p = self.aff(t.a[1])
            return None if p is None else p.inverse()
        if t.k == 'ite':
            c = self.truth(t.a[0])
            if c is not None:
                return self.aff(t.a[1] if c else t.a[2])
            p, q = self.aff(t.a[1]), self.aff(t.a[2])
            return p if p is not None and p == q else None
        return None

    def is_out(self, x):
        """The image being written."""
        if x.k == 'ite':
            return all(self.is_out(y) for y in x.a[1:])
        return x.k == 'obj'

    def windowed(self, T, w):
        o = self.offsets(w)
        return None if o is None else T * translation(o[1], o[0])

    def offsets(self, w):
        """(row, column) offset of a window."""
        if w is None:
            return None
        if w.k == 'call' and callname(w) == 'rasterio.windows.Window.from_slices':
            kw = dict(zip(('rows', 'cols'), unstar(w.a[1]) or ()), **dict(w.a[2]))
            v = [self.start(kw[k]) if k in kw else None for k in ('rows', 'cols')]
            return None if None in [q and 1 for q in v] else tuple(v)
        r, c = (self.num(mk('attr', w, k)) for k in ('row_off', 'col_off'))
        return None if r is None or c is None else (r, c)

    def start(self, t):
        if t.k == 'slice':
            return rat(0) if t.a[0] is NONE else self.num(t.a[0])
        if t.k in ('tuple', 'list') and len(t.a) == 2:
            return self.num(t.a[0])
        return self.num(mk('attr', t, 'start'))

    def num(self, t):
        v = unlazy(self.A.val(t))
        return v if isinstance(v, Rat) else None

    # ------------------------------------------------------------ arrays
    def origin(self, t, depth=0):
        """(grid, row, column): where the first element of an array lies in the grid it was taken from."""
        if depth > 60:
            return None
        if t.k == 'call' and t.a[0].k == 'attr':
            o, m = t.a[0].a
            if m == 'read' and o.k == 'sym' and o.a[0] in ('dem_file', 'src_file'):
                kw = dict(t.a[2])
                g = {'dem_file': 'dem', 'src_file': 'src'}.get(o.a[0])
                w = kw.get('window')
                if w is None or w is NONE:
                    return (g, rat(0), rat(0))
                off = self.offsets(w)
                return None if off is None else (g,) + off
            if m in PASS:
                return self.origin(o, depth + 1)
            return None
        n = callname(t) if t.k == 'call' else None
        if n in PASSF and t.a[1]:
            if n == 'numpy.where':
                o = [q for q in (self.origin(x, depth + 1) for x in t.a[1][1:]) if q is not None]
                return o[0] if o and all(q[0] == o[0][0] and q[1] == o[0][1] and q[2] == o[0][2] for q in o) else None
            return self.origin(t.a[1][0], depth + 1)
        if t.k == 'attr' and t.a[1] == 'data':
            return self.origin(t.a[0], depth + 1)
        if t.k == 'sub':
            x, i = t.a
            if x.k == 'call' and callname(x) == 'rasterio.warp.reproject' and pyval(i) == (True, 0):
                return ('reproj', rat(0), rat(0))
            o = self.origin(x, depth + 1)
            if o is None:
                return None
            if i.k == 'tuple' and i.a and i.a[0] is mk('ellipsis'):
                i = mk('tuple', *i.a[1:])
            if i.k == 'call' and i.a[0].k == 'attr' and i.a[0].a[1] == 'toslices':
                off = self.offsets(i.a[0].a[0])
                return None if off is None else (o[0], o[1] + off[0], o[2] + off[1])
            if i.k in ('tuple', 'slice'):
                ii = list(i.a) if i.k == 'tuple' else [i]
                if len(ii) > 2 or any(z.k != 'slice' for z in ii):
                    return None
                st = [rat(0) if z.a[0] is NONE else self.num(z.a[0]) for z in ii] + [rat(0)] * (2 - len(ii))
                if any(q is None for q in st) or any(z.a[2] is not NONE and pyval(z.a[2]) != (True, 1) for z in ii):
                    return None
                return (o[0], o[1] + st[0], o[2] + st[1])
            if pyval(i) == (True, 0):
                return o          # the band of a single band array
            return None
        if t.k in ('upd', 'copyof'):
            return self.origin(t.a[0], depth + 1)
        if t.k == 'ite':
            c = self.truth(t.a[0])
            if c is not None:
                return self.origin(t.a[1] if c else t.a[2], depth + 1)
            p, q = self.origin(t.a[1], depth + 1), self.origin(t.a[2], depth + 1)
            return p if p is not None and q is not None and p[0] == q[0] and p[1] == q[1] and p[2] == q[2] else None
        return None

    # ------------------------------------------------------------ algebra hook
    def opaque(self, x):
        if x.k == 'ite':
            c = self.truth(x.a[0])
            if c is not None:
                return self.A.val(x.a[1] if c else x.a[2])
        if x.k == 'attr' and x.a[1] == 'shape' and self.origin(x.a[0]) is not None:
            return arr(scalar(f'{q}@px#{x.id}') for q in ('rows', 'cols'))
        if x.k == 'call' and callname(x) == 'numpy.unravel_index':
            return arr(scalar(f'{q}@px#{x.id}') for q in ('rows', 'cols'))
        if x.k == 'attr' and x.a[1] in ('height', 'width') and x.a[0].k == 'sym' and x.a[0].a[0] in ('dem_file', 'src_file'):
            return scalar(f'{dict(height="rows", width="cols")[x.a[1]]}@px#{x.id}')
        if x.k == 'attr':
            if x.a[1] in ATTR and not (x.a[0].k == 'sym'):
                T = self.aff(x.a[0])
                if T is not None:
                    i, j = ATTR[x.a[1]]
                    return T.m[i][j]
            w = x.a[0]
            if x.a[1] in ('col_off', 'row_off', 'width', 'height') and w.k == 'call' and callname(w) == 'rasterio.windows.Window':
                a = dict(zip(('col_off', 'row_off', 'width', 'height'), w.a[1]), **dict(w.a[2]))
                if x.a[1] in a:
                    return self.A.val(a[x.a[1]])
            if x.a[1] == 'start' and w.k == 'slice':
                return self.A.val(w.a[0])
            if x.a[1] == 'stop' and w.k == 'slice':
                return self.A.val(w.a[1])
        if x.k == 'sub' and x.a[0].k == 'sub' and isinstance(pyval(x.a[1])[1], int):
            v = unlazy(self.A.val(x.a[0]))
            if isinstance(v, Rat) and self.pure(v) is not None:
                return v          # one of the points that were transformed
        if x.k == 'sub':
            T = self.aff(x.a[0])
            ok, i = pyval(x.a[1])
            if T is not None and ok and isinstance(i, int) and 0 <= i < 6:
                return T.m[i // 3][i % 3]
            if x.a[0].k == 'call' and callname(x.a[0]) == 'numpy.meshgrid' and ok and i in (0, 1):
                c = x.a[0]
                ix = dict(c.a[2]).get('indexing')
                ranges = [self.arange(z) for z in c.a[1]]
                if len(ranges) == 2 and not any(q is None for q in ranges) and (ix is None or pyval(ix) == (True, 'xy')):
                    return (scalar('col') if i == 0 else scalar('row')) + ranges[i]
                if len(ranges) == 2 and not any(q is None for q in ranges) and pyval(ix) == (True, 'ij'):
                    return (scalar('row') if i == 0 else scalar('col')) + ranges[i]
            if x.a[0].k == 'call' and callname(x.a[0]) == 'numpy.indices' and ok and i in (0, 1):
                return scalar('row') if i == 0 else scalar('col')
            if x.a[1].k == 'tuple' and all(z.k == 'slice' for z in x.a[1].a) and len(x.a[1].a) == 2:
                v = unlazy(self.A.val(x.a[0]))
                if isinstance(v, Rat) and {POOL.keys[a] for a in v.atoms()} & {('s', 'row'), ('s', 'col')}:
                    st = [rat(0) if z.a[0] is NONE else self.num(z.a[0]) for z in x.a[1].a]
                    if not any(q is None for q in st):
                        return subst(v, {('s', 'row'): scalar('row') + st[0], ('s', 'col'): scalar('col') + st[1]})
        if x.k == 'bin' and x.a[0] in ('*', '@'):
            T = self.aff(x.a[1])
            if T is not None and self.aff(x.a[2]) is None:
                v = unlazy(self.A.val(x.a[2]))
                if isinstance(v, Arr) and v.n in (2, None):
                    p, q = unlazy(v.get(0)), unlazy(v.get(1))
                    if isinstance(p, Rat) and isinstance(q, Rat):
                        return arr(T.apply(p, q))
        if x.k == 'call':
            v = self.coords(x)
            if v is not None:
                return v
        if x.k == 'call' and callname(x) == 'rasterio.transform.xy' and x.a[1]:
            T = self.aff(x.a[1][0])
            kw = dict(zip(('transform', 'rows', 'cols', 'zs', 'offset'), x.a[1]), **dict(x.a[2]))
            d = {'center': Fraction(1, 2), 'ul': Fraction(0)}.get(pyval(kw.get('offset', const('center')))[1])
            r, c = (self.num(kw[k]) if k in kw else None for k in ('rows', 'cols'))
            if T is not None and d is not None and r is not None and c is not None:
                return arr(T.apply(c + rat(d), r + rat(d)))
        return None

    def coords(self, x):
        """World coordinates from the camera and coordinate transforms, with their axis and CRS; reductions and joins of them."""
        f, n = x.a[0], callname(x)
        if f.k == 'attr' and f.a[0].k == 'sym' and f.a[0].a[0] == 'cam' and f.a[1] in ('world_boundary', 'pixel_to_world_z'):
            return arr(scalar(f'{q}@world#{x.id}') for q in 'xyz')
        if n == 'rasterio.warp.transform':
            a = dict(zip(('src_crs', 'dst_crs', 'xs', 'ys', 'zs'), self.expand(x.a[1])), **dict(x.a[2]))
            d = self.frame(a.get('dst_crs'))
            return arr(scalar(f'{q}@{d}#{x.id}') for q in 'xyz')
        if n in ('rasterio.warp.transform_bounds',):
            a = self.expand(x.a[1])
            d = self.frame(a[1]) if len(a) > 1 else None
            return arr(fn(m, scalar(f'{q}@{d}#{x.id}')) for m, q in (('min', 'x'), ('min', 'y'), ('max', 'x'), ('max', 'y')))
        if n in ('rasterio.transform.array_bounds',):
            T = self.aff(x.a[1][-1]) if not x.a[2] else None
            if T is None or T.grid is None:
                return None
            return arr(fn(m, scalar(f'{q}@{self.grid_frame(T.grid)}#{x.id}')) for m, q in (('min', 'x'), ('min', 'y'), ('max', 'x'), ('max', 'y')))
        if n in ('numpy.amin', 'numpy.amax', 'numpy.min', 'numpy.max', 'numpy.nanmin', 'numpy.nanmax') and x.a[1]:
            kw = dict(zip(('a', 'axis'), x.a[1]), **dict(x.a[2]))
            v = unlazy(self.A.val(kw['a']))
            if isinstance(v, Arr) and v.n is not None and pyval(kw.get('axis', NONE))[1] in (1, -1):
                m = 'min' if 'min' in n else 'max'
                return v.map(lambda r: fn(m, r) if isinstance(r, Rat) else r)
        if f.k == 'attr' and f.a[1] in ('min', 'max'):
            kw = dict(zip(('axis',), x.a[1]), **dict(x.a[2]))
            if pyval(kw.get('axis', NONE))[1] in (1, -1):
                v = unlazy(self.A.val(f.a[0]))
                if isinstance(v, Arr) and v.n is not None:
                    return v.map(lambda r: fn(f.a[1], r) if isinstance(r, Rat) else r)
        if n in ('numpy.column_stack', 'numpy.hstack') or n == 'numpy.concatenate' and pyval(dict(x.a[2]).get('axis', x.a[1][1] if len(x.a[1]) > 1 else NONE))[1] in (1, -1):
            l = x.a[1][0] if x.a[1] else None
            if l is not None and l.k in ('list', 'tuple') and l.a:
                vs = [unlazy(self.A.val(y.a[0] if y.k == 'star' else y)) for y in l.a]
                if all(isinstance(v, Arr) and v.n == vs[0].n and v.n for v in vs):
                    return arr(atom(('fn', 'stack') + tuple(v.get(i).key() for v in vs)) for i in range(vs[0].n))
        return None

    def grid_frame(self, g):
        if g == 'out':
            for e in self.calls('rasterio.open'):
                c = self.term(e.data['kwargs'].get('crs')) if e.data['kwargs'].get('crs') is not None else None
                if c is not None:
                    return self.frame(c)
            return None
        if g == 'reproj':
            for e in self.calls('rasterio.warp.reproject'):
                c = e.data['kwargs'].get('dst_crs')
                return self.frame(self.term(c)) if c is not None else None
        return g

    def expand(self, args):
        """Positional arguments, with starred ones taken apart where their number is known."""
        out = []
        for a in args:
            if a.k == 'star' and len(a.a) == 3 and a.a[1]:
                (coll, uid), = a.a[1][:1]
                v = unlazy(self.A.val(coll))
                if not isinstance(v, Arr) or v.n is None:
                    return out + [mk('sym', '?')] * 6
                e = mk('elem', coll, uid)
                out += [simp(a.a[0], lambda x, i=i: mk('sub', coll, const(i)) if x is e else None) for i in range(v.n)]
            elif a.k in ('star', 'starred'):
                v = unlazy(self.A.val(a.a[0]))
                if not isinstance(v, Arr) or v.n is None:
                    return out + [mk('sym', '?')] * 6
                out += [mk('sub', a.a[0], const(i)) for i in range(v.n)]
            else:
                out.append(a)
        return out

    def axis(self, t):
        """Set of (axis, CRS) a value depends on, and of the reductions (min, max) around them; None: unknown."""
        v = unlazy(self.A.val(t))
        while isinstance(v, Arr) and v.n == 1:
            v = unlazy(v.get(0))
        if isinstance(v, Arr) and v.n is not None and all(isinstance(unlazy(q), Rat) and unlazy(q).const() is not None for q in v.rows()):
            return set()
        if not isinstance(v, Rat):
            return None
        out = set()
        for a in v.atoms():
            self.tags(POOL.keys[a], out, '')
        return out

    def pure(self, v):
        """(axis, CRS) of a coordinate that no arithmetic was done on."""
        if isinstance(v, Rat) and len(v.n) == 1 and v.d == {(): 1} and list(v.n.values()) == [1]:
            (m,), = v.n,
            if len(m) == 1:
                k = POOL.keys[m[0]]
                if k[0] == 's' and '@' in str(k[1]):
                    return tuple(k[1].split('#')[0].split('@'))
        return None

    def tags(self, k, out, how):
        if not isinstance(k, tuple) or not k:
            return
        if k[0] == 's' and isinstance(k[1], str) and '@' in k[1]:
            q, g = k[1].split('#')[0].split('@')
            q = {'a': 'x', 'c': 'x', 'e': 'y', 'f': 'y'}.get(q, q)
            out.add((q, self.grid_frame(g), how))
            return
        if k[0] == 'fn':
            how = k[1] if k[1] in ('min', 'max') else how
            for q in k[2:]:
                self.tags(q, out, how)
        elif k[0] == 'ite':
            for q in k[2:]:
                self.tags(q, out, how)
        elif k[0] == 'r':
            v = Rat(dict(k[1]), dict(k[2]))
            for a in v.atoms():
                self.tags(POOL.keys[a], out, how)

    def arange(self, t):
        """First value of a range of integers with step one."""
        if t.k == 'call' and callname(t) in ('numpy.arange', 'builtins.range') and t.a[1] and len(t.a[1]) <= 2:
            return rat(0) if len(t.a[1]) == 1 else self.num(t.a[1][0])

    # ------------------------------------------------------------ calls
    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and e.name in names]

    def cam_calls(self, name):
        out = []
        for e in self.events:
            if e.kind == 'call' and e.name == '.' + name and 'recv' in e.data:
                r = self.E.freeze(e.data['recv'])
                if r.k == 'sym' and r.a[0] == 'cam':
                    out.append(e)
        return out


def subst(v, m):
    """A polynomial with atoms replaced."""
    def poly(p):
        s = rat(0)
        for mono, c in p.items():
            t = rat(c)
            for a in mono:
                t = t * m.get(POOL.keys[a], Rat({(a,): Fraction(1)}, {(): Fraction(1)}))
            s = s + t
        return s
    return poly(v.n) / poly(v.d)


@lru_cache(None)
def geo(repo, equal):
    return Geo(repo, equal)


def tiles(g):
    """(write event, call of Camera.remap() the data comes from, window written) of the output tiles."""
    out = []
    for e in g.events:
        if e.kind != 'call' or e.name not in ('.write', '.write_mask'):
            continue
        a, kw = e.data['args'], e.data['kwargs']
        t = g.term(a[0]) if a else g.term(kw.get('arr', kw.get('mask_array')))
        if t is None:
            continue
        xs = {x for x in subterms(t) if x.k == 'call' and x.a[0].k == 'attr' and x.a[0].a[1] == 'remap' and x.a[0].a[0].k == 'sym' and x.a[0].a[0].a[0] == 'cam'}
        n = 2 if e.name == '.write' else 1
        w = kw.get('window', a[n] if len(a) > n else None)
        out += [(e, x, g.term(w) if w is not None else None) for x in xs]
    return out


def remap_args(x):
    return dict(zip(('im_array', 'x', 'y', 'z', 'nodata', 'interp', 'kernel_size'), x.a[1]), **dict(x.a[2]))


ROUND = ('numpy.round', 'numpy.rint', 'numpy.array', 'numpy.asarray', 'numpy.int32', 'numpy.around', 'numpy.stack', 'numpy.floor', 'numpy.column_stack', 'numpy.vstack', 'numpy.transpose')


def poly_points(g, e):
    """((column, row), origin of the array, masked array) of the polygon of a fillPoly() call."""
    a = dict(zip(('img', 'pts', 'color'), [g.term(x) for x in e.data['args']]), **{k: g.term(x) for k, x in e.data['kwargs'].items()})
    t = a.get('pts')
    while t is not None:
        if t.k in ('list', 'tuple') and len(t.a) == 1:
            t = t.a[0]
        elif t.k == 'attr' and t.a[1] == 'T':
            t = t.a[0]
        elif t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] in ('astype', 'round', 'transpose', 'reshape', 'copy'):
            t = t.a[0].a[0]
        elif t.k == 'call' and callname(t) in ROUND and t.a[1]:
            t = t.a[1][0]
        else:
            break
    if t is None:
        return None
    v = unlazy(g.A.val(t))
    if not isinstance(v, Arr) or v.n not in (2, None):
        return None
    c = [unlazy(v.get(i)) for i in range(2)]
    if any(not isinstance(x, Rat) for x in c):
        return None
    if any(not x.atoms() for x in c):
        return None
    o = None
    for y in subterms(a.get('img', NONE)):
        if y.k == 'attr' and y.a[1] == 'shape':
            o = g.origin(y.a[0])
            arr_ = y.a[0]
        elif y.k == 'call' and callname(y) in ('numpy.zeros_like', 'numpy.full_like') and y.a[1]:
            o, arr_ = g.origin(y.a[1][0]), y.a[1][0]
        if o is not None:
            return c, o, arr_
    return None


class PanGeo(Geo):
    def __init__(self, repo, mode):
        """mode: which of the images are georeferenced."""
        self.mode, self.equal = mode, False
        self.E = E = scen.new(repo, pan_file=('DatasetReader',), ms_file=('DatasetReader',), out_file=('str',), ms_indexes=('list',), weights=('list',))
        self.o, _, self.ev0 = E.run(E.modvar(Q + 'pan_sharp', 'PanSharpen'), [S('pan_file'), S('ms_file')])
        self.ev1 = []
        if self.o is not None:
            _, _, self.ev1 = E.run(E.getattr_(self.o, 'process'), [S('out_file')], dict(
                pan_index=S('pan_index'), ms_indexes=S('ms_indexes'), weights=S('weights'), interp=S('interp'), progress=S('prog_list'), **OUT_KW))
        self.events = list(self.ev0) + list(self.ev1)
        self.affs = {}
        self.A = Algebra(opaque=self.opaque, lim=FULL, dotlim=FULL, generic=True)
        self.A.truth = self.truth
        self.memo, self.errs = {}, []

    def fold(self, x):
        if x.k == 'isinst' and x.a[0].k == 'sym' and x.a[0].a[0] in ('pan_file', 'ms_file'):
            return TRUE
        n = None
        if x.k == 'isnone':
            n = x.a[0]
        elif x.k == 'cmp' and x.a[0] in ('is', '==', 'is not', '!=') and NONE in x.a[1:]:
            n = x.a[1] if x.a[2] is NONE else x.a[2]
        elif x.k == 'truth':
            n = x.a[0]
        if n is not None and n.k == 'attr' and n.a[1] in ('crs', 'is_identity'):
            f = self.file(n.a[0].a[0] if n.a[1] == 'is_identity' and n.a[0].k == 'attr' else n.a[0])
            if f is not None:
                bare = f == self.mode                    # not georeferenced
                if n.a[1] == 'is_identity' or x.k == 'isnone' or x.k == 'cmp' and x.a[0] in ('is', '=='):
                    return TRUE if bare else FALSE
                return FALSE if bare else TRUE
        return None

    def truth(self, c):
        r = self.fold(c)
        if r is not None:
            return r is TRUE
        if c.k == 'cmp' and c.a[0] in ('==', '!=') and not pyval(c.a[1])[0] and not pyval(c.a[2])[0]:
            return None
        return Algebra.truth(self.A, c)

    def file(self, t):
        if t is not None and t.k == 'sym':
            return {'pan_file': 'pan', 'ms_file': 'ms'}.get(t.a[0])
        return None

    def frame(self, t):
        return self.file(t.a[0]) if t.k == 'attr' and t.a[1] == 'crs' else None

    def own(self, n):
        """Georeferencing of an image."""
        if n != self.mode:
            return base(n + '_file')
        o = dict(pan='ms', ms='pan')[n]
        size = lambda f, q: scalar(f'{q}@px#{mk("attr", S(f + "_file"), q).id}')
        T = base(o + '_file')
        s = [scalar(f'{q}@{o}') / scalar(f'{q}@{n}') for q in ('width', 'height')]
        return T * Aff([[s[0], rat(0), rat(0)], [rat(0), s[1], rat(0)]])

    def aff_(self, t):
        n = callname(t) if t.k == 'call' else None
        if n in ('affine.Affine.scale', 'rasterio.Affine.scale'):
            v = [self.num(x) for x in self.expand(t.a[1])]
            if len(v) == 1:
                v = v * 2
            if len(v) == 2 and not any(q is None for q in v):
                return Aff([[v[0], rat(0), rat(0)], [rat(0), v[1], rat(0)]])
            return None
        return Geo.aff_(self, t)

    def opaque(self, x):
        if x.k == 'attr' and x.a[1] in ('width', 'height', 'shape') and self.file(x.a[0]):
            f = self.file(x.a[0])
            if x.a[1] == 'shape':
                return arr(scalar(f'{q}@{f}') for q in ('height', 'width'))
            return scalar(f'{x.a[1]}@{f}')
        if x.k == 'attr' and x.a[1] == 'bounds' and self.file(x.a[0]):
            f = self.file(x.a[0])
            return arr(fn(m, scalar(f'{q}@{f}#{x.id}')) for m, q in (('min', 'x'), ('min', 'y'), ('max', 'x'), ('max', 'y')))
        if x.k == 'attr' and x.a[1] in ('left', 'bottom', 'right', 'top') and x.a[0].k == 'attr' and x.a[0].a[1] == 'bounds' and self.file(x.a[0].a[0]):
            return unlazy(self.A.val(x.a[0])).get(('left', 'bottom', 'right', 'top').index(x.a[1]))
        return Geo.opaque(self, x)

    def vrts(self):
        return [e for e in self.events if e.kind == 'call' and e.name == 'rasterio.vrt.WarpedVRT']

    def window_of(self, grid, size, T):
        """There is a window with the given offset and size."""
        n, off = grid
        for e in self.vrts():
            for k in e.data['kwargs']:
                if k in ('transform', 'width', 'height'):
                    for y in subterms(self.term(e.data['kwargs'][k])):
                        if y.k == 'call' and callname(y) == 'rasterio.windows.Window':
                            a = dict(zip(('col_off', 'row_off', 'width', 'height'), y.a[1]), **dict(y.a[2]))
                            w = [unlazy(self.A.val(a[q])) if q in a else None for q in ('col_off', 'row_off', 'width', 'height')]
                            if all(isinstance(p, Rat) and p == q for p, q in zip(w, list(off) + list(size))):
                                return True
        return False


@lru_cache(None)
def pangeo(repo, mode):
    return PanGeo(repo, mode)
