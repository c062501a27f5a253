"""The world CRS that readers derive from positions, decided by intervals of longitude and latitude.

The EPSG code is a piecewise expression of the mean latitude and longitude.  It is evaluated in interval arithmetic, on each UTM zone and
hemisphere, where its value has to be the code of that zone."""
import math
from .pose import *

EPS = Fraction(1, 10 ** 9)


class Zone:
    def __init__(self, A, mean, iv):
        """mean: maps a number in the coordinates to (constant, {'lat' / 'lon': factor}); iv: intervals of 'lat' and 'lon'."""
        self.A, self.mean, self.iv = A, mean, iv

    def ev(self, t):
        """Interval of the values of a term, as (low, high), or None."""
        ok, v = pyval(t)
        if ok:
            return (Fraction(v), Fraction(v)) if isinstance(v, (int, float)) and not isinstance(v, str) else None
        x = self.A.val(t)
        x = unlazy(x)
        while isinstance(x, Arr) and x.n == 1:
            x = unlazy(x.get(0))
        if isinstance(x, Rat):
            l = self.mean(x)
            if l is not None:
                return self.linear(l)
        if t.k == 'bin':
            p, q = self.ev(t.a[1]), self.ev(t.a[2])
            return None if p is None or q is None else self.bin(t.a[0], p, q)
        if t.k == 'un' and t.a[0] == '-':
            p = self.ev(t.a[1])
            return None if p is None else (-p[1], -p[0])
        if t.k == 'ite':
            c = self.cond(t.a[0])
            if c is not None:
                return self.ev(t.a[1] if c else t.a[2])
            p, q = self.ev(t.a[1]), self.ev(t.a[2])
            return None if p is None or q is None else (min(p[0], q[0]), max(p[1], q[1]))
        if t.k == 'call':
            return self.call(t)
        if t.k == 'sub' and t.a[0].k == 'call' and callname(t.a[0]) in ('builtins.divmod', 'numpy.divmod') and pyval(t.a[1]) in ((True, 0), (True, 1)):
            p, q = (self.ev(x) for x in t.a[0].a[1])
            return None if p is None or q is None else self.bin('//' if pyval(t.a[1])[1] == 0 else '%', p, q)
        return None

    def linear(self, l):
        c, m = l
        lo = hi = c
        for n, f in m.items():
            a, b = self.iv[n]
            lo += min(f * a, f * b)
            hi += max(f * a, f * b)
        return lo, hi

    def bin(self, op, p, q):
        if op == '+':
            return p[0] + q[0], p[1] + q[1]
        if op == '-':
            return p[0] - q[1], p[1] - q[0]
        if op == '*':
            c = [a * b for a in p for b in q]
            return min(c), max(c)
        if q[0] != q[1] or q[0] <= 0:
            return None
        d = q[0]
        if op == '/':
            return p[0] / d, p[1] / d
        if op == '//':
            return Fraction(math.floor(p[0] / d)), Fraction(math.floor(p[1] / d))
        if op == '%':
            k = math.floor(p[0] / d)
            return (p[0] - k * d, p[1] - k * d) if math.floor(p[1] / d) == k else (Fraction(0), d)
        return None

    def call(self, t):
        n, a = callname(t), t.a[1]
        if t.a[0].k == 'attr' and t.a[0].a[1] in ('item', 'astype') :
            p = self.ev(t.a[0].a[0])
            return p if p is None or t.a[0].a[1] == 'item' else tuple(Fraction(math.trunc(x)) if 'int' in show(t, 2) else x for x in p)
        v = [self.ev(x) for x in a]
        if not v or any(x is None for x in v):
            return None
        f = {'builtins.int': math.trunc, 'numpy.floor': math.floor, 'math.floor': math.floor, 'numpy.ceil': math.ceil, 'math.ceil': math.ceil,
             'builtins.float': lambda x: x, 'numpy.trunc': math.trunc, 'math.trunc': math.trunc, 'builtins.round': round, 'numpy.round': round, 'numpy.rint': round}.get(n)
        if f and len(v) == 1:
            return tuple(Fraction(f(x)) for x in v[0])
        if n in ('numpy.floor_divide', 'numpy.mod', 'numpy.fmod', 'math.fmod', 'numpy.remainder') and len(v) == 2:
            return self.bin('//' if n == 'numpy.floor_divide' else '%', *v) if n not in ('numpy.fmod', 'math.fmod') or v[0][0] >= 0 else None
        if n in ('builtins.min', 'numpy.minimum'):
            return min(x[0] for x in v), min(x[1] for x in v)
        if n in ('builtins.max', 'numpy.maximum'):
            return max(x[0] for x in v), max(x[1] for x in v)
        if n == 'numpy.clip' and len(v) == 3:
            return tuple(min(max(x, v[1][i]), v[2][i]) for i, x in enumerate(v[0]))
        return None

    def cond(self, c):
        if c.k == 'truth':
            return self.cond(c.a[0])
        if c.k == 'not':
            r = self.cond(c.a[0])
            return None if r is None else not r
        if c.k in ('and', 'or'):
            r = [self.cond(x) for x in c.a]
            w = c.k == 'or'
            return w if w in r else None if None in r else not w
        if c.k == 'cmp':
            p, q = self.ev(c.a[1]), self.ev(c.a[2])
            if p is None or q is None:
                return None
            op = c.a[0]
            if op in ('<', '<='):
                p, q, op = q, p, {'<': '>', '<=': '>='}[op]
            if op == '>':
                return True if p[0] > q[1] else False if p[1] <= q[0] else None
            if op == '>=':
                return True if p[0] >= q[1] else False if p[1] < q[0] else None
            if op in ('==', '!='):
                r = True if p[0] == p[1] == q[0] == q[1] else False if p[1] < q[0] or p[0] > q[1] else None
                return r if r is None or op == '==' else not r
        if c in (TRUE, FALSE):
            return c is TRUE
        return None


def epsg_of(t):
    """The term of the EPSG code of a CRS term."""
    if t.k != 'call':
        return None
    n = callname(t) or ''
    if n.startswith('rasterio.crs.CRS.from_epsg') and t.a[1]:
        return t.a[1][0]
    if n in ('rasterio.crs.CRS.from_epsg',) and t.a[2]:
        return dict(t.a[2]).get('code')
    if n in ('rasterio.crs.CRS.from_string', 'rasterio.crs.CRS.from_user_input') and t.a[1]:
        s = t.a[1][0]
        if s.k == 'fstr':
            parts = [x for x in s.a if pyval(x)[0] is False]
            text = ''.join(str(pyval(x)[1]) for x in s.a if pyval(x)[0])
            if len(parts) == 1 and text.upper() == 'EPSG:':
                return parts[0]
    return None


def wrong_zone(p, t, pts):
    """Why a CRS term is not the UTM zone of the mean position, for the first zone where it is not; None if it is.

    pts: latitude and longitude of the positions, as numbers."""
    n = len(pts)
    M = dict(lat=scalar('mean_lat'), lon=scalar('mean_lon'))
    sub = {}
    for i, q in enumerate(('lat', 'lon')):
        (m, c), = pts[-1][i].n.items()
        # the last position is the one that gives the mean
        rest = total([x[i] for x in pts[:-1]]) if n > 1 else rat(0)
        sub[rows.POOL.keys[m[0]]] = (M[q] * rat(n) - rest) / rat(c)
    free = {q: rows.POOL.id(('s', 'mean_' + q)) for q in M}

    def mean(x):
        x = subst_(x, sub)
        if len(x.d) != 1 or () not in x.d:
            return None
        c, m = Fraction(0), {}
        for mono, k in x.n.items():
            k = Fraction(k) / Fraction(x.d[()])
            if mono == ():
                c += k
            elif len(mono) == 1 and mono[0] in free.values():
                m[[q for q, a in free.items() if a == mono[0]][0]] = k
            else:
                return None
        return c, m
    e = epsg_of(t)
    if e is None:
        return 'the CRS is not made from a code'
    for north in (True, False):
        for z in range(60):
            iv = dict(lon=(Fraction(-180 + 6 * z), Fraction(-174 + 6 * z) - EPS), lat=(EPS, Fraction(84)) if north else (Fraction(-80), -EPS))
            p.A.memo.clear()
            r = Zone(p.A, mean, iv).ev(e)
            want = (32600 if north else 32700) + z + 1
            if r is None:
                return 'the code of the CRS cannot be resolved as a function of the mean latitude and longitude'
            if r != (want, want):
                got = f'{float(r[0]):.0f}' if r[0] == r[1] else f'between {float(r[0]):.0f} and {float(r[1]):.0f}'
                return f'the code is {got}, not {want}, for longitudes {float(iv["lon"][0]):.0f} to {float(iv["lon"][1]) :.0f} on the {"northern" if north else "southern"} hemisphere'
    return None


def subst_(v, m):
    def poly(p):
        s = rat(0)
        for mono, c in p.items():
            t = rat(c)
            for a in mono:
                t = t * m.get(rows.POOL.keys[a], Rat({(a,): Fraction(1)}, {(): Fraction(1)}))
            s = s + t
        return s
    return poly(v.n) / poly(v.d)


def mean_of_list(p, x):
    """Sums and means of lists of scalars."""
    if x.k != 'call':
        return None
    n, a = callname(x), x.a[1]
    if n in ('numpy.mean', 'numpy.sum', 'builtins.sum', 'statistics.mean', 'statistics.fmean', 'math.fsum', 'numpy.average') and len(a) == 1 and not x.a[2]:
        l = a[0]
    elif x.a[0].k == 'attr' and x.a[0].a[1] in ('mean', 'sum') and not a and not x.a[2]:
        l, n = x.a[0].a[0], x.a[0].a[1]
    else:
        return None
    while l.k == 'call' and callname(l) in ('numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple') and l.a[1]:
        l = l.a[1][0]
    if l.k not in ('list', 'tuple'):
        return None
    v = [unlazy(p.A.val(y)) for y in l.a]
    if not v or any(not isinstance(y, Rat) for y in v):
        return None
    s = total(v)
    return s if n.endswith('sum') else s / rat(len(v))


def auto(repo):
    """(label, pose, CRS term, positions) of the readers without a CRS."""
    out = []
    kw = dict(lla_crs=S('lla_crs'))
    # CSV file
    E = scen.new(repo, **TYPES)
    names = ('filename',) + FIELDS['lla'] + FIELDS['rpy']
    row = lambda i: D(E, **{n: S(f'f{i}_' + n) for n in names})
    E.ext_values['csv.DictReader'] = lambda E, a, kw, nd: E.alloc('list', [row(0), row(1)])
    fns = E.alloc('list', [const(n) for n in names])
    r, esc, _ = E.run(E.modvar(Q + 'param_io', 'CsvReader'), [S('file')], dict(kw, fieldnames=fns))
    out.append(('CsvReader', E, r, esc, [[scalar(f'f{i}_latitude'), scalar(f'f{i}_longitude')] for i in range(2)]))
    # OpenSfM file
    E = scen.new(repo, **TYPES)

    def load(E, a, kw, nd):
        return E.alloc('list', [D(E, cameras=D(E), shots=D(E), reference_lla=D(E, latitude=S('f_latitude'), longitude=S('f_longitude'), altitude=S('f_altitude')))])
    E.ext_values['json.load'] = load
    r, esc, _ = E.run(E.modvar(Q + 'param_io', 'OsfmReader'), [S('file')], dict(kw))
    out.append(('OsfmReader', E, r, esc, [[scalar('f_latitude'), scalar('f_longitude')]]))
    # image tags
    E = scen.new(repo, **TYPES)
    q = XMP['dji']
    xmp = {k: S('t_' + n) for k, n in zip(q['rpy'], FIELDS['rpy'])}
    xmp.update({k: S('t_' + n) for k, n in zip(q['lla'], FIELDS['lla'])})
    tagged(E, dict(EXIF_Make=S('make'), EXIF_Model=S('model')), xmp, True)
    r, esc, _ = E.run(E.modvar(Q + 'param_io', 'ExifReader'), [E.alloc('list', [S('src_file')])], dict(kw))
    out.append(('ExifReader', E, r, esc, [[scalar('t_latitude'), scalar('t_longitude')]]))
    res = []
    for n, E, r, esc, pts in out:
        p = Pose(E, n, None, esc, tag=mean_of_list)
        t = None
        if r is not None:
            t = E.freeze(E.getattr_(r, 'crs'))
        res.append((n, p, t, pts))
    return res
