"""Camera poses in the files that are read, and in the exterior parameters made of them, as algebraic normal forms.

A run of a reader is given a file with one image, whose values are symbols.  The coordinate transforms of the library are opaque points
with a name: what is checked is which coordinates are passed to them, between which CRSs, and what is made of the result."""
from functools import lru_cache
from itertools import permutations
from .common import *
from .. import scen
from ..rows import *
from .. import rows
from ..scen import Q
from .c12 import D
from .c28 import FULL, TooBig, crs_is, mm, unstar
from .c14 import subterms
from .c29 import field, pairs

TYPES = dict(crs=('CRS',), lla_crs=('CRS',), file=('OpenFile',), src_file=('DatasetReader',))
FIELDS = dict(xyz=('x', 'y', 'z'), lla=('latitude', 'longitude', 'altitude'), opk=('omega', 'phi', 'kappa'), rpy=('roll', 'pitch', 'yaw'))
CRS_KW = dict(crs=S('crs'), lla_crs=S('lla_crs'))


class Pose:
    """Exterior parameters of one image, with the algebra they are evaluated in."""

    def __init__(self, E, label, value, esc, lla=None, xyz=None, fold=None, tag=None, gcps=None):
        self.E, self.label, self.esc, self.gcps = E, label, esc, gcps
        self.lla, self.pos = lla, xyz
        self.errs, self.calls = [], []
        self.tag = tag
        v = None if value is None else E.freeze(value)
        if v is not None and fold is not None:
            v = simp(simp(v, fold), fold)
        self.v = v
        self.A = Algebra(opaque=self.opaque, lim=FULL, dotlim=FULL, generic=True)

    def entry(self):
        """Dictionary of the exterior parameters of the image, None if there is not exactly one."""
        t = self.v
        if t is None or t.k != 'dict':
            return None
        p = pairs(t)
        return p[0][1] if len(p) == 1 == len(t.a) else None

    def get(self, key):
        d = self.entry()
        return None if d is None else field(d, key)

    # -------------------------------------------------------------- library calls
    def opaque(self, x):
        if x.k == 'call':
            n = callname(x)
            if n in ('rasterio.warp.transform', 'rasterio.warp.transform_geom') or n == 'fiona.transform.transform':
                return self.transform(x)
        if x.k == 'sub' and x.a[0].k == 'call' and callname(x.a[0]) == 'cv2.Rodrigues' and pyval(x.a[1]) == (True, 0):
            v = unlazy(self.A.val(x.a[0].a[1][0]))
            k = v.key()
            return arr(arr(atom(('rod', k, i, j)) for j in range(3)) for i in range(3))
        if self.tag is not None:
            return self.tag(self, x)
        return None

    def transform(self, x):
        a = dict(zip(('src_crs', 'dst_crs', 'xs', 'ys', 'zs'), unstar(x.a[1])))
        a.update(dict(x.a[2]))
        src, dst = (self.crs(a.get(n)) for n in ('src_crs', 'dst_crs'))
        c = []
        for n in ('xs', 'ys', 'zs'):
            v = unlazy(self.A.val(a[n])) if n in a else None
            c.append(v.rows() if isinstance(v, Arr) and v.n is not None else [v])
        if len({len(q) for q in c}) != 1 or any(not isinstance(v, Rat) for q in c for v in q):
            self.errs.append('the coordinates of a transform cannot be resolved')
            return None
        self.calls.append((src, dst))
        pts = [self.point(src, dst, *p) for p in zip(*c)]
        return arr(arr(p[i] for p in pts) for i in range(3))

    def crs(self, t):
        if t is None:
            return None
        s = syms(t)
        if s == {'crs'}:
            return 'crs'
        if s == {'lla_crs'}:
            return 'lla'
        if not s and '4979' in show(t, 4):
            return 'lla'
        return None

    def point(self, src, dst, x, y, z):
        if (src, dst) == ('lla', 'crs') and self.lla is not None:
            lat, lon, alt = self.lla
            d = y - lat
            ok = x == lon and z == alt and d.const() is not None and abs(d.const()) < Fraction(1, 100)
            if not ok:
                self.errs.append(f'the coordinates transformed to the world CRS are ({str(x)[:60]}, {str(y)[:60]}, {str(z)[:60]}), not (longitude, latitude, altitude)')
                d = rat(0)
            n = 'E' if d.const() == 0 else 'N+' if d.const() > 0 else 'N-'
            return [scalar(f'{n}[{i}]') for i in range(3)]
        if (src, dst) == ('crs', 'lla') and self.pos is not None:
            if not (x == self.pos[0] and y == self.pos[1] and z == self.pos[2]):
                self.errs.append(f'the coordinates transformed to geographic coordinates are ({str(x)[:60]}, {str(y)[:60]}, {str(z)[:60]}), not (x, y, z)')
            lat, lon, alt = self.lla
            return [lon, lat, alt]
        self.errs.append(f'coordinates are transformed from {src or "another CRS"} to {dst or "another CRS"}')
        return [scalar(f'?{i}') for i in range(3)]

    # -------------------------------------------------------------- comparison
    def rows(self, key, n=3):
        t = self.get(key)
        if t is None:
            return None
        try:
            v = unlazy(self.A.val(t))
        except TooBig:
            return None
        if not isinstance(v, Arr) or v.n not in (n, None):
            return None
        out = []
        for i in range(n):
            x = v.get(i)
            while isinstance(x, Arr) and x.n == 1:
                x = x.get(0)
            if not isinstance(x, Rat):
                return None
            out.append(x)
        return out


def unfn(x):
    """(function, arguments) of a scalar that is one irreducible function."""
    if isinstance(x, Rat) and len(x.n) == 1 and len(x.d) == 1 and () in x.d:
        (m, c), = x.n.items()
        if len(m) == 1 and c == 1:
            k = rows.POOL.keys[m[0]]
            if k[0] == 'fn':
                return k[1], [unkey(q) for q in k[2:]]
    return None


def unkey(k):
    return Rat(dict(k[1]), dict(k[2])) if isinstance(k, tuple) and k and k[0] == 'r' else None


def angle_eq(x, want):
    """Equal, where the arguments of irreducible functions are compared by value and up to a positive common factor."""
    if x == want:
        return True
    p, q = unfn(x), unfn(want)
    return p is not None and q is not None and p[0] == q[0] and len(p[1]) == len(q[1]) and all(u is not None and v is not None and u == v for u, v in zip(p[1], q[1]))


def opk_of(m):
    """Angles of a camera (x right, y up, z backwards) to world rotation."""
    return [atom(('fn', 'arctan2', (-m[1][2]).key(), m[2][2].key())), fn('arcsin', m[0][2]), atom(('fn', 'arctan2', (-m[0][1]).key(), m[0][0].key()))]


def rpy_matrix(r, p, y, cam=None):
    """Camera to world rotation from roll, pitch and yaw, with north in the world CRS found by a small change of the latitude."""
    o, z = rat(1), rat(0)
    c, s = (lambda a: fn('cos', a)), (lambda a: fn('sin', a))
    rx = [[o, z, z], [z, c(r), -s(r)], [z, s(r), c(r)]]
    ry = [[c(p), z, s(p)], [z, o, z], [-s(p), z, c(p)]]
    rz = [[c(y), -s(y), z], [s(y), c(y), z], [z, z, o]]
    d = [scalar(f'N+[{i}]') - scalar(f'N-[{i}]') for i in range(3)]
    n = fn('sqrt', total(x * x for x in d))
    x = [v / n for v in d]
    zz = [z, z, -o]
    yy = [zz[1] * x[2] - zz[2] * x[1], zz[2] * x[0] - zz[0] * x[2], zz[0] * x[1] - zz[1] * x[0]]
    en = [[x[i], yy[i], zz[i]] for i in range(3)]
    return mm(mm(mm(en, rz), mm(ry, rx)), cam or [[z, o, z], [o, z, z], [z, z, -o]])


def syms3(names):
    return [scalar(n) for n in names]


def csv(repo, pos, ang, radians, header=False):
    """Run of the CSV reader on a file with the given fields."""
    E = scen.new(repo, **TYPES)
    names = ('filename',) + FIELDS[pos] + FIELDS[ang]
    row = D(E, **{n: S('f_' + n) for n in names})
    E.ext_values['csv.DictReader'] = lambda E, a, kw, nd: E.alloc('list', [row])
    fns = E.alloc('list', [const(n) for n in names])
    lab = f"CsvReader, {pos} and {ang} in {'radians' if radians else 'degrees'}"
    r, esc, _ = E.run(E.modvar(Q + 'param_io', 'CsvReader'), [S('file')], dict(CRS_KW, fieldnames=fns, radians=const(radians)))
    if r is None:
        return Pose(E, lab, None, esc)
    v, esc, _ = E.run(E.getattr_(r, 'read_ext_param'), [], {})
    lla = syms3(['f_' + n for n in FIELDS['lla']]) if pos == 'lla' else syms3(['lat', 'lon', 'alt'])
    p = Pose(E, lab, v, esc, lla=lla, xyz=syms3(['f_' + n for n in FIELDS['xyz']]) if pos == 'xyz' else None)
    p.pos_want = p.pos if pos == 'xyz' else syms3(f'E[{i}]' for i in range(3))
    a = syms3(['f_' + n for n in FIELDS[ang]])
    p.angles = a if radians else [fn('radians', x) for x in a]
    p.want = p.angles if ang == 'opk' else opk_of(rpy_matrix(*p.angles))
    p.kind = ang
    return p


def osfm(repo):
    """Run of the OpenSfM reader on a reconstruction with one shot."""
    E = scen.new(repo, **TYPES)

    def load(E, a, kw, nd):
        vec = lambda n: E.alloc('list', [S(f'{n}{i}') for i in range(3)])
        cam = D(E, projection_type=const('perspective'), width=const(100), height=const(80), focal=S('foc'), k1=S('k1'), k2=S('k2'))
        shot = D(E, rotation=vec('rot'), translation=vec('tr'), camera=const('c1'))
        return E.alloc('list', [D(E, cameras=D(E, c1=cam), shots=D(E, a__jpg=shot), reference_lla=D(E, latitude=S('f_latitude'), longitude=S('f_longitude'), altitude=S('f_altitude')))])
    E.ext_values['json.load'] = load
    r, esc, _ = E.run(E.modvar(Q + 'param_io', 'OsfmReader'), [S('file')], dict(CRS_KW))
    if r is None:
        return Pose(E, 'OsfmReader', None, esc)
    v, esc, _ = E.run(E.getattr_(r, 'read_ext_param'), [], {})
    p = Pose(E, 'OsfmReader', v, esc, lla=syms3(['f_' + n for n in FIELDS['lla']]))
    rod = [[atom(('rod', arr(syms3(f'rot{q}' for q in range(3))).key(), i, j)) for j in range(3)] for i in range(3)]
    t = syms3(f'tr{i}' for i in range(3))
    p.pos_want = [scalar(f'E[{i}]') - total(rod[j][i] * t[j] for j in range(3)) for i in range(3)]
    o = rat(1)
    p.want = opk_of([[rod[0][i], -rod[1][i], -rod[2][i]] for i in range(3)])
    p.kind = 'rotation'
    return p


DJI = '{http://www.dji.com/drone-dji/1.0/}'
XMP = dict(
    dji=dict(rpy=[DJI + f'Gimbal{n}Degree' for n in ('Roll', 'Pitch', 'Yaw')], offsets=(0, 90, 0),
             lla=[DJI + n for n in ('GpsLatitude', 'GpsLongtitude', 'AbsoluteAltitude')]),
    sensefly=dict(rpy=['{http://ns.sensefly.com/Camera/1.0/}' + n for n in ('Roll', 'Pitch', 'Yaw')], offsets=(0, 0, 0)),
    pix4d=dict(rpy=['{http://pix4d.com/camera/1.0/}' + n for n in ('Roll', 'Pitch', 'Yaw')], offsets=(0, 0, 0)),
)


def tagged(E, exif, xmp, ns=True):
    """The image file symbol with the given EXIF and XMP tags."""
    ext = lambda n: mk('ext', n)

    def tags(E, a, kw, nd):
        n = pyval(kw.get('ns', a[-1] if a else const(None)))
        if n == (True, 'xml:XMP'):
            return dct(E, {'xml:XMP': S('xmp')} if xmp else {})
        if n == (True, 'EXIF') if ns else n == (True, None):
            return dct(E, exif)
        return dct(E, {})
    E.attr_values['src_file', 'tags'] = ext('vt.tags')
    E.ext_values['vt.tags'] = tags
    E.attr_values['xmp', 'strip'] = ext('vt.xmp_strip')
    E.ext_values['vt.xmp_strip'] = S('xmp')
    for n in ('xml.etree.ElementTree.fromstring', 'xml.etree.cElementTree.fromstring', 'xml.etree.ElementTree.XML'):
        E.ext_values[n] = S('xml_root')
    kids = {'xml_root': ['xml_node'], 'xml_node': []}
    for n, c in kids.items():
        E.attr_values[n, 'tag'] = const('{ns}' + n)
        E.attr_values[n, 'text'] = const('')
        E.attr_values[n, 'attrib'] = dct(E, xmp if n == 'xml_node' else {})
        for m in ('findall', 'iter', 'iterfind'):
            E.attr_values[n, m] = ext(f'vt.{n}.{m}')
        E.ext_values[f'vt.{n}.findall'] = E.ext_values[f'vt.{n}.iterfind'] = E.alloc('list', [S(k) for k in c])
        E.ext_values[f'vt.{n}.iter'] = E.alloc('list', [S(k) for k in [n] + c])


def dct(E, d):
    return E.alloc('dict', [(const(k), v) for k, v in d.items()])


def length(E, a, kw, nd):
    from .. import models
    if len(a) == 1 and a[0].k == 'sym' and '#' in str(a[0].a[0]):
        return const(4)
    return models.call_ext(E, mk('ext', 'builtins.len'), 'builtins.len', a, kw, nd)


def numbers(E, name, n):
    """An EXIF tag with the given number of values: "(1) (2) (3)"."""
    ext = lambda q: mk('ext', q)
    E.attr_values[name, 'split'] = ext(f'vt.{name}.split')
    parts = []
    for i in range(n):
        s = f'{name}#{i}'
        E.attr_values[s, 'strip'] = ext(f'vt.{s}.strip')
        E.ext_values[f'vt.{s}.strip'] = S(f'{name}_{i}')
        parts.append(S(s))
    E.ext_values['builtins.len'] = length
    E.ext_values[f'vt.{name}.split'] = E.alloc('list', parts + [const('')])
    return S(name)


def exif(repo, schema, gps=None, ns=True):
    """Run of the EXIF reader on an image with the tags of the given XMP schema; gps: (latitude, longitude, altitude) references of EXIF position tags."""
    E = scen.new(repo, **TYPES)
    q = XMP[schema]
    xmp = {k: S('t_' + n) for k, n in zip(q['rpy'], FIELDS['rpy'])}
    tags = dict(EXIF_Make=S('make'), EXIF_Model=S('model'))
    if gps is None:
        xmp.update({k: S('t_' + n) for k, n in zip(q['lla'], FIELDS['lla'])})
        lla = syms3(['t_' + n for n in FIELDS['lla']])
    else:
        tags.update(EXIF_GPSLatitude=numbers(E, 'lat', 3), EXIF_GPSLongitude=numbers(E, 'lon', 3), EXIF_GPSAltitude=numbers(E, 'alt', 1),
                    EXIF_GPSLatitudeRef=const(gps[0]), EXIF_GPSLongitudeRef=const(gps[1]), EXIF_GPSAltitudeRef=const(gps[2]))
        dms = lambda n: total([scalar(f'{n}_0'), scalar(f'{n}_1') / rat(60), scalar(f'{n}_2') / rat(3600)])
        sg = [rat(1 if gps[0] == 'N' else -1), rat(1 if gps[1] == 'E' else -1), rat(-1 if gps[2] in ('0x01', '1') else 1)]
        lla = [dms('lat') * sg[0], dms('lon') * sg[1], scalar('alt_0') * sg[2]]
    tagged(E, tags, xmp, ns)
    lab = f'ExifReader, {schema} orientation, ' + ('XMP position' if gps is None else f'EXIF position {gps[0]}, {gps[1]}, altitude reference {gps[2]}')
    r, esc, _ = E.run(E.modvar(Q + 'param_io', 'ExifReader'), [E.alloc('list', [S('src_file')])], dict(CRS_KW))
    if r is None:
        return Pose(E, lab, None, esc)
    v, esc, _ = E.run(E.getattr_(r, 'read_ext_param'), [], {})
    p = Pose(E, lab, v, esc, lla=lla)
    p.pos_want = syms3(f'E[{i}]' for i in range(3))
    p.angles = [fn('radians', scalar('t_' + n) + rat(o)) for n, o in zip(FIELDS['rpy'], q['offsets'])]
    p.want = opk_of(rpy_matrix(*p.angles))
    p.kind = 'rpy'
    return p


def fit(repo, kind, crs, interior=None, n=3):
    """Run of fit_frame_exterior() on one image with control points whose coordinates are symbols."""
    E = scen.new(repo, **TYPES)
    ip = interior(E) if interior else D(E, cam_type=const(kind), im_size=tup(S('w'), S('h')), focal_len=S('foc'))
    vec = lambda q, m: tup(*[S(f'{q}{i}') for i in range(m)])
    gcps = E.alloc('list', [D(E, ji=vec(f'g{k}_ji', 2), xyz=vec(f'g{k}_', 3), id=const(str(k)), info=const('')) for k in range(n)])
    kw = dict(crs=S('crs')) if crs else {}
    v, esc, _ = E.run(E.modvar(Q + 'fit', 'fit_frame_exterior'), [D(E, c1=ip), D(E, a__jpg=gcps)], kw)
    p = Pose(E, f"fit_frame_exterior, {kind}, {'geographic control points' if crs else 'control points in the world CRS'}", v, esc,
             fold=lambda x: TRUE if x.k == 'truth' and x.a[0].k == 'sym' and x.a[0].a[0] == 'crs' else None)
    p.pnp, p.undist = [], []
    src = [[scalar(f'g{k}_{i}') for i in range(3)] for k in range(n)]
    p.image = [[scalar(f'g{k}_ji{i}') for i in range(2)] for k in range(n)]
    p.world = [[scalar(f'W{k}[{i}]') for i in range(3)] for k in range(n)] if crs else src

    def point(a, b, x, y, z):
        for k, s in enumerate(src):
            if crs and (a, b) == ('lla', 'crs') and x == s[0] and y == s[1] and z == s[2]:
                return p.world[k]
        p.errs.append(f'the coordinates transformed from {a or "another CRS"} to {b or "another CRS"} are not (longitude, latitude, height) of a control point')
        return [scalar(f'?{i}') for i in range(3)]
    p.point = point

    def tag(self, x):
        if x.k == 'sub' and x.a[0].k == 'call' and callname(x.a[0]) == 'cv2.solvePnP' and pyval(x.a[1]) in ((True, 1), (True, 2)):
            if x.a[0] not in p.pnp:
                p.pnp.append(x.a[0])
            return arr(arr([scalar(f"pnp_{'_rt'[x.a[1].a[1]]}{i}")]) for i in range(3))
        if x.k == 'call' and callname(x) == 'cv2.fisheye.undistortPoints':
            if x not in p.undist:
                p.undist.append(x)
            return arr([arr(arr(scalar(f'ud{k}_{i}') for i in range(2)) for k in range(n))])
    p.tag = tag
    p.kind = 'rotation'
    return p


PNP = ('objectPoints', 'imagePoints', 'cameraMatrix', 'distCoeffs', 'rvec', 'tvec', 'useExtrinsicGuess', 'flags')


def pnp_args(p):
    c = p.pnp[0]
    a = dict(zip(PNP, c.a[1]))
    a.update(dict(c.a[2]))
    return a


def matrix(A, t, r, c):
    """Entries of an array with r rows and c columns, None if it is not one."""
    v = unlazy(A.val(t))
    while isinstance(v, Arr) and v.n == 1 and isinstance(v.get(0), Arr) and isinstance(v.get(0).get(0), Arr):
        v = v.get(0)
    if not isinstance(v, Arr) or v.n not in (r, None):
        return None
    out = []
    for i in range(r):
        q = unlazy(v.get(i))
        if not isinstance(q, Arr):
            return None
        row = [unlazy(q.get(j)) for j in range(c)]
        if any(not isinstance(x, Rat) for x in row):
            return None
        out.append(row)
    return out


def fit_pose(p):
    """Position and angles expected from the pose found by solvePnP(), and what is wrong with the object points."""
    p.rows('opk')
    p.rows('xyz')
    if len(p.pnp) != 1:
        return None, None, f'the pose comes from {len(p.pnp)} calls of solvePnP()'
    o = matrix(p.A, pnp_args(p).get('objectPoints', NONE), len(p.world), 3)
    if o is None:
        return None, None, 'the object points passed to solvePnP() cannot be resolved'
    ref = [[w - q for w, q in zip(ws, qs)] for ws, qs in zip(p.world, o)]
    if any(not x == y for r in ref[1:] for x, y in zip(r, ref[0])):
        return None, None, 'the object points passed to solvePnP() are not the world coordinates of the control points, less a common reference'
    r = arr(arr([scalar(f'pnp_r{q}')]) for q in range(3))
    R = [[atom(('rod', r.key(), i, j)) for j in range(3)] for i in range(3)]
    t = syms3(f'pnp_t{i}' for i in range(3))
    pos = [ref[0][i] - total(R[j][i] * t[j] for j in range(3)) for i in range(3)]
    return pos, opk_of([[R[0][i], -R[1][i], -R[2][i]] for i in range(3)]), None


@lru_cache(None)
def poses(repo):
    """Runs of all sources of exterior parameters."""
    out = [csv(repo, a, b, r) for a in ('xyz', 'lla') for b in ('opk', 'rpy') for r in (True, False)]
    out.append(osfm(repo))
    out.append(exif(repo, 'dji'))
    out += [exif(repo, s, g, n) for s, g, n in (('dji', ('S', 'E', '0x00'), True), ('sensefly', ('N', 'W', '0x01'), False), ('pix4d', ('N', 'E', '0x00'), True))]
    for kind in ('pinhole', 'brown', 'opencv', 'fisheye'):
        for c in (False, True):
            p = fit(repo, kind, c)
            p.pos_want, p.want, p.bad = fit_pose(p)
            out.append(p)
    return out


def found(p):
    """Evaluated position and angles, or what prevents it."""
    p.errs.clear()
    p.A.memo.clear()
    if p.v is None:
        return None, None, 'the parameters cannot be read'
    if p.get('xyz') is None or p.get('opk') is None:
        return None, None, 'the parameters of the image cannot be resolved'
    return p.rows('xyz'), p.rows('opk'), None


def legacy(repo):
    """Position and orientation passed to cameras by the legacy command: (how, xyz, opk) as values."""
    E = scen.new(repo, **TYPES)

    def reader(E, a, kw, nd):
        E.attr_values['rdr', 'fieldnames'] = kw.get('fieldnames', a[1] if len(a) > 1 else NONE)
        return S('rdr')
    E.ext_values['csv.DictReader'] = reader
    E.ext_values['builtins.vars'] = lambda E, a, kw, nd: D(E, src_im_file=E.alloc('list', [const('x.tif')]), dem_file=const('dem.tif'), pos_ori_file=const('po.txt'), ortho_dir=NONE,
                                                           read_conf=const('c.yaml'), write_conf=NONE, verbosity=NONE)
    cam = lambda E: D(E, name=const('c'), type=const('pinhole'), im_size=tup(S('w'), S('h')), focal_len=S('foc'))
    E.ext_values['yaml.safe_load'] = lambda E, a, kw, nd: D(E, camera=cam(E), ortho=D(E, crs=S('crs')))
    _, esc, ev = E.run(E.modvar(Q + 'cli', 'simple_ortho'), [NONE], {})
    names = FIELDS['xyz'] + FIELDS['opk']

    def tag(x):
        if x.k == 'sub' and pyval(x.a[1])[0] and pyval(x.a[1])[1] in names:
            n = pyval(x.a[1])[1]
            if x.a[0].k == 'elem':
                return scalar('f_' + n)
            for y in subterms(x.a[0]):
                if y.k in ('dstar', 'dict'):
                    d = y.a[1] if y.k == 'dstar' else y
                    f = field(d, n) if d.k == 'dict' else None
                    if f is not None:
                        return A.val(f)
    A = Algebra(opaque=tag, lim=FULL, dotlim=FULL, generic=True)
    out = []
    for e in ev:
        if e.kind == 'inline' and e.name.startswith(Q + 'camera.') and e.name.endswith(('.__init__', '.update')) and 'opk' in e.data['env']:
            out.append((e.name, e.data['env'].get('xyz'), e.data['env']['opk'], e))
        elif e.kind == 'call' and str(e.name or '').split('.')[-1] == 'update':
            a = dict(zip(('xyz', 'opk'), e.data.get('args', ())), **e.data.get('kwargs', {}))
            if 'opk' in a and 'xyz' in a:
                out.append(('update()', a['xyz'], a['opk'], e))
    vals = []
    for n, x, o, e in out:
        v = []
        for t in (x, o):
            w = unlazy(A.val(E.freeze(t))) if t is not None else None
            v.append([unlazy(w.get(i)) for i in range(3)] if isinstance(w, Arr) and w.n in (3, None) else None)
        vals.append((n, v[0], v[1], e))
    return E, vals
