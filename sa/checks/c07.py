"""C07: output pixels with no valid source are nodata."""
from .geo import *
from .geo import geo, remap_args
from .c22 import CamGeo
from .pix import Pix, flat, TOP, NUM, NAN, NOD, MASKED, OFF, Stack

CAMS = [('rpc', None), ('pinhole', None), ('brown', True), ('brown', False), ('fisheye', False), ('opencv', False)]
CAMS_ALL = CAMS + [('opencv', True), ('fisheye', True)]
DTYPES = ('uint8', 'uint16', 'int16', 'float32', 'float64')


def check(ctx):
    ctx.rule('sample', 'Camera.remap() leaves the nodata value where the coordinates are nan or outside the image, and marks the pixel in the mask it returns', 8)
    ctx.rule('nan', 'Camera.world_to_pixel() gives coordinates that are not numbers for positions without height', 4)
    ctx.rule('undistort', 'Camera.read() leaves the nodata value in pixels of the undistorted image that are outside the source image', 1)
    ctx.rule('dem', 'heights of pixels that are masked in the DEM, not covered by it, or outside the boundary of the ortho are nan, and other heights are kept', 6)
    ctx.rule('written', 'the pixels written to the output are those of the remapped image, and the mask written is false for its nodata pixels', 4)
    ctx.rule('value', 'the nodata value used for reading and remapping is that of the output file and its data type', 10)
    ctx.rule('mask', 'the mask is written for every tile, if it is enabled', 2)
    for kind, d in CAMS_ALL if ctx.tier == 'thorough' else CAMS:
        camera(ctx, kind, d)
    for eq in (False, True):
        ortho(ctx, eq)


def name(kind, d):
    return f'{kind} camera' + ('' if d is None else f', distort={d}')


class NanCam(CamGeo):
    def __init__(self, repo, kind, d):
        CamGeo.__init__(self, repo, kind)
        self.cam, _, _ = scen.camera(self.E, kind, const(d) if d is not None else const(True) if kind in scen.FRAME else None, True)


def camera(ctx, kind, d):
    lab = name(kind, d)
    for nod in ('given', 'default'):
        g = NanCam(ctx.repo, kind, d)
        ctx.seen(g.E, lab)
        kw = dict(interp=S('interp'), kernel_size=S('kernel_size'))
        if nod == 'given':
            kw['nodata'] = S('nodata')
        v = g.run('remap', [S('im_array'), S('x'), S('y'), S('z')], kw)
        t = g.term(v) if v is not None else None
        for nn in (False, True):
            for case in ('nan', 'left', 'above'):
                p = Pix(scenario(case), nn)
                r = p.ev(t) if t is not None else TOP
                key = f'remap() of the {lab}, {"coordinates that are not numbers" if case == "nan" else "coordinates outside the image"}, nodata {nod}{", nan" if nn else ""}'
                a, m = r if isinstance(r, Stack) and len(r) == 2 else (TOP, TOP)
                a = set(flat(a))
                bad = 'coordinates that are not numbers are sampled' if p.sampled else f'the value of the pixel is {"/".join(map(str, a))}' if a != {NOD} else f'the mask of nodata pixels is {m} at the pixel' if m is not True else None
                ctx.ob('sample', key, bad is None, bad or '', 'orthority/camera.py')
    E = scen.new(ctx.repo, crs=('CRS',), xyz=('tuple',), opk=('tuple',))
    cam, _, _ = scen.camera(E, kind, const(d) if d is not None else const(True) if kind in scen.FRAME else None, True)
    if cam is not None:
        v, _, _ = E.run(E.getattr_(cam, 'world_to_pixel'), [S('xyz')], {})
        if v is not None:
            p = Pix(lambda t, _: Stack((NUM, NUM, NAN)) if t.k == 'sym' and t.a[0] == 'xyz' else fields(t))
            r = p.ev(E.freeze(v))
            ctx.ob('nan', f'world_to_pixel() of the {lab}', set(flat(r)) == {NAN}, f'the coordinates are {flat(r)} where the height is nan', 'orthority/camera.py')
    if d is False:
        g = NanCam(ctx.repo, kind, d)
        for nod in ('given', 'default'):
            v = g.run('read', [S('im_file')], dict(interp=S('interp'), dtype=S('dtype'), **(dict(nodata=S('nodata')) if nod == 'given' else {})))
            t = g.term(v) if v is not None else None
            for nn in (False, True):
                r = Pix(scenario('left'), nn).ev(t) if t is not None else TOP
                ctx.ob('undistort', f'read() of the {lab}, nodata {nod}{", nan" if nn else ""}', set(flat(r)) == {NOD}, f'the value of pixels outside the source image is {flat(r)}', 'orthority/camera.py')


def fields(t):
    """Parameters are numbers."""
    if t.k == 'sym':
        return NUM
    if t.k == 'attr' and t.a[0].k in ('sym', 'obj', 'attr') or t.k == 'obj':
        return NUM
    if t.k == 'sub' and t.a[0].k in ('sym',) and t.a[0].a[0] != 'xyz':
        return NUM
    if t.k == 'call' and callname(t) in ('vt.rotation', 'cv2.Rodrigues'):
        return NUM
    return None


def scenario(case):
    def leaf(t, p):
        if t.k == 'sym':
            n = t.a[0]
            if n == 'nodata':
                return NOD
            if n in ('x', 'y'):
                return NUM
            if n == 'z':
                return NAN if case == 'nan' else NUM
            return None
        if t.k == 'call' and callname(t) == 'vt.to_pixel':
            if case == 'left':
                return Stack((OFF, NUM))
            if case == 'above':
                return Stack((NUM, OFF))
            a = p.ev(t.a[1][0])
            return Stack((NAN, NAN)) if NAN in flat(a) else Stack((NUM, NUM))
        if t.k == 'sub' and t.a[0].k == 'dict' and table(t.a[0]) and in_dtype(t.a[1]):
            return NOD
        if t.k == 'call' and (callname(t) or '') in ('cv2.initUndistortRectifyMap', 'cv2.fisheye.initUndistortRectifyMap'):
            return Stack((OFF, NUM))
        return None

    return leaf


def table(d):
    """Table of values by data type."""
    ks = {pyval(k)[1] for k in d.a[::2]} if d.a and not isinstance(d.a[0], tuple) else {pyval(k[0])[1] for k in d.a}
    return 'uint8' in {str(k) for k in ks} and 'float32' in {str(k) for k in ks}


def in_dtype(t):
    """The data type of an image array that is passed, or requested."""
    while t.k == 'call' and callname(t) in ('builtins.str', 'numpy.dtype') and t.a[1]:
        t = t.a[1][0]
    if t.k == 'attr' and t.a[1] in ('dtype', 'name'):
        return True
    if t.k == 'ite':
        return all(in_dtype(x) for x in t.a[1:])
    return t.k == 'sym' and t.a[0] == 'dtype' or t.k == 'sub' and t.a[0].k == 'attr' and t.a[0].a[1] == 'dtypes'


# ---------------------------------------------------------------- ortho
def dem_case(case):
    def leaf(t, p):
        if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] == 'read' and t.a[0].a[0].k == 'sym' and t.a[0].a[0].a[0] == 'dem_file':
            if case == 'masked':
                m = dict(t.a[2]).get('masked', t.a[1][4] if len(t.a[1]) > 4 else None)
                return MASKED if m is not None and pyval(m) == (True, True) else NUM
            return OFF if case == 'uncovered' else NUM
        if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] in ('read_masks', 'dataset_mask') and t.a[0].a[0].k == 'sym' and t.a[0].a[0].a[0] == 'dem_file':
            return 0 if case == 'masked' else 255
        if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] == 'filled' and case == 'uncovered':
            return p.ev(t.a[0].a[0])
        if t.k == 'call' and callname(t) == 'cv2.fillPoly':
            a = dict(zip(('img', 'pts', 'color'), t.a[1]), **dict(t.a[2]))
            if case == 'outside':
                return p.ev(a['img']) if 'img' in a else None
            c = p.ev(a['color']) if 'color' in a else TOP
            return c[0] if isinstance(c, Stack) and c else c
        return None
    return leaf


def ortho(ctx, eq):
    g = geo(ctx.repo, eq)
    ctx.seen(g.E, 'Ortho')
    lab = 'DEM in the CRS and resolution of the ortho' if eq else 'reprojected DEM'
    zs = {}
    for e, x, w in tiles(g):
        a = remap_args(x)
        if 'z' in a:
            zs.setdefault(a['z'].id, (e, a['z']))
        t = g.term((e.data['args'] or list(e.data['kwargs'].values()))[0])
        for nn in (False, True):
            v = Pix(written, nn).ev(t)
            if e.name == '.write':
                ctx.ob('written', f'{lab}, write(){", nan" if nn else ""}', set(flat(v)) == {NOD}, f'the value written for nodata pixels is {v}', where(e))
            else:
                ok = v is False or v == 0 and not isinstance(v, str)
                ctx.ob('written', f'{lab}, write_mask(){", nan" if nn else ""}', ok, f'the mask written for nodata pixels is {v}', where(e))
    for e, z in zs.values():
        for case, what in (('masked', 'is masked in the DEM'), ('uncovered', 'is not covered by the DEM'), ('outside', 'is outside the boundary of the ortho'), ('valid', 'is valid')):
            if case == 'uncovered' and eq:
                continue
            v = Pix(dem_case(case)).ev(z)
            ok = v == (NUM if case == 'valid' else NAN)
            ctx.ob('dem', f'{lab}, pixel that {what}', ok, f'the height of a pixel that {what} is {v}', where(e))
    if not eq:
        values(ctx, g)
        masks(ctx, g)


def written(t, p):
    if t.k == 'sub' and t.a[0].k == 'call' and t.a[0].a[0].k == 'attr' and t.a[0].a[0].a[1] == 'remap':
        return {0: NOD, 1: True, -1: True, -2: NOD}.get(pyval(t.a[1])[1])
    return None


def values(ctx, g):
    opens = [e for e in g.calls('rasterio.open') if 'nodata' in e.data['kwargs'] and 'dtype' in e.data['kwargs']]
    for d in DTYPES:
        other = 'int16' if d != 'int16' else 'uint8'
        for given in (True, False):
            arg, src = (const(d), other) if given else (NONE, d)

            def f(x):
                if x.k == 'sym' and x.a[0] == 'dtype':
                    return arg
                if x.k == 'truth' and x.a[0].k == 'sym' and x.a[0].a[0] == 'dtype':
                    return const(given)
                if x.k == 'sym' and x.a[0] == 'write_mask' or x.k == 'truth' and x.a[0].k == 'sym' and x.a[0].a[0] == 'write_mask':
                    return FALSE
                if x.k == 'sub' and x.a[0].k == 'attr' and x.a[0].a[1] == 'dtypes':
                    s = x.a[0].a[0]
                    return const(src) if s.k == 'sym' and s.a[0] == 'src_file' else const(d) if g.is_out(s) else None
                if x.k == 'sub' and x.a[0].k == 'attr' and x.a[0].a[1] in ('profile', 'meta') and pyval(x.a[1]) == (True, 'dtype'):
                    s = x.a[0].a[0]
                    return const(src) if s.k == 'sym' and s.a[0] == 'src_file' else const(d) if g.is_out(s) else None
                return None

            def val(t):
                t = simp(simp(g.E.freeze(t), f), f)
                return value(t)
            case = f'{d} {"given" if given else "by default"}'
            want = {val(e.data['kwargs']['nodata']) for e in opens}
            if len(want) != 1 or None in want:
                ctx.ob('value', f'output file, {case}', not opens, 'the nodata value of the file cannot be resolved', where(opens[0]) if opens else None)
                continue
            want = want.pop()
            for n in ('remap', 'read'):
                for e in g.cam_calls(n):
                    a = e.data['kwargs'].get('nodata', e.data['args'][4] if n == 'remap' and len(e.data['args']) > 4 else None)
                    v = val(a) if a is not None else f'that of the data type of the array' if n == 'remap' else None
                    if a is None and n == 'remap':
                        continue
                    if v is None and a is not None:
                        ctx.ob('value', f'{n}(), {case}', False, 'the nodata value cannot be resolved', where(e))
                        continue
                    if a is None:
                        continue
                    ctx.ob('value', f'{n}(), {case}', v == want, f'the nodata value is {v}, and that of the file {want}', where(e))


def value(t):
    ok, p = pyval(t)
    if ok:
        return 'nan' if isinstance(p, float) and p != p else str(float(p)) if isinstance(p, (int, float)) else None
    if t.k == 'ext' and t.a[0] in ('numpy.nan', 'math.nan'):
        return 'nan'
    if t.k == 'attr' and t.a[0].k == 'call' and callname(t.a[0]) in ('numpy.iinfo',) and t.a[1] in ('min', 'max'):
        n = pyval(t.a[0].a[1][0])[1]
        import re
        m = re.fullmatch(r'(u?)int(\d+)', str(n))
        if m:
            b = int(m[2])
            lo, hi = (0, 2 ** b - 1) if m[1] else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            return str(float(lo if t.a[1] == 'min' else hi))
    if t.k == 'ite':
        v = {value(x) for x in t.a[1:]}
        return v.pop() if len(v) == 1 else None
    if t.k == 'sub' and t.a[0].k == 'dict':
        k = t.a[1]
        while k.k == 'call' and callname(k) in ('builtins.str', 'numpy.dtype') and k.a[1] or k.k == 'attr' and k.a[1] == 'name' and k.a[0].k == 'call':
            k = k.a[1][0] if k.k == 'call' else k.a[0]
        ok, p = pyval(k)
        for q in t.a[0].a:
            if ok and isinstance(q, tuple) and pyval(q[0]) == (True, p):
                return value(q[1])
    return None


def masks(ctx, g):
    """The mask is written for every tile, with and without per-band processing."""
    ev = [e for e in g.events if e.kind == 'call' and e.name == '.write_mask']
    for pb in (True, False):
        for n in (1, 3):
            live = False
            for e in ev:
                for el in (range(1, n + 1) if pb else (None,)):
                    def f(x):
                        if x.k == 'sym' and x.a[0] == 'per_band' or x.k == 'truth' and x.a[0].k == 'sym' and x.a[0].a[0] == 'per_band':
                            return const(pb)
                        if x.k == 'attr' and x.a[1] == 'count' and (x.a[0].k == 'sym' and x.a[0].a[0] == 'src_file' or g.is_out(x.a[0])):
                            return const(n)
                        if x.k == 'elem' and x.a[0].k == 'call' and callname(x.a[0]) == 'builtins.range' and el is not None and any(y.k == 'attr' and y.a[1] == 'count' for y in subterms(x)):
                            return const(el)
                        if x.k in ('list', 'tuple') and len(x.a) == 1 and x.a[0].k in ('star', 'starred') and x.a[0].a[0].k == 'call' and callname(x.a[0].a[0]) == 'builtins.range':
                            return rng(x.a[0].a[0], f)
                        if x.k == 'call' and callname(x) in ('builtins.list', 'builtins.tuple') and x.a[1] and x.a[1][0].k == 'call' and callname(x.a[1][0]) == 'builtins.range':
                            return rng(x.a[1][0], f)
                        return fold_base(x)
                    if not any(dead(simp(simp(q, f), f)) for q in e.guards):
                        live = True
            ctx.ob('mask', f'per_band={pb}, {n} band(s)', live, 'no mask is written', where(ev[0]) if ev else None)


def rng(x, f):
    v = [pyval(simp(simp(q, f), f)) for q in x.a[1]]
    if all(o and isinstance(q, int) for o, q in v):
        return mk('list', *[const(q) for q in range(*[q for _, q in v])])
    return None


def dead(t):
    if t is FALSE:
        return True
    if t.k == 'and':
        return any(dead(x) for x in t.a)
    if t.k == 'or':
        return all(dead(x) for x in t.a)
    if t.k == 'cmp' and t.a[0] == '==' and t.a[1].k == t.a[2].k == 'list':
        p, q = [[pyval(z) for z in y.a] for y in t.a[1:]]
        return all(o for o, _ in p + q) and p != q
    if t.k == 'cmp' and t.a[0] == '==':
        s = [size(y) for y in t.a[1:]]
        return None not in s and s[0] != s[1]
    if t.k == 'truth':
        return dead(t.a[0])
    return False


def size(t):
    ok, p = pyval(t)
    if ok and isinstance(p, int):
        return p
    if t.k == 'call' and callname(t) == 'builtins.len' and t.a[1] and t.a[1][0].k in ('list', 'tuple') and not any(x.k in ('star', 'starred') for x in t.a[1][0].a):
        return len(t.a[1][0].a)
    return None
