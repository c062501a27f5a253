"""C22: pixel coordinates refer to pixel centres."""
from .geo import *
from .geo import geo
from .c26 import array_transform
from . import c10, c28
from .c28 import op, rpc_terms, tup, W, JI, Z

HALF = rat(Fraction(1, 2))


def check(ctx):
    ctx.rule('grid', 'the world coordinates of each output pixel are those of its centre', 2)
    ctx.rule('surface', 'world coordinates are looked up in an elevation array at pixel coordinates with integers at the pixel centres', 2)
    ctx.rule('mask', 'the boundary of the ortho is drawn in the elevation array at pixel coordinates with integers at the pixel centres', 1)
    ctx.rule('resample', 'the source image is sampled at the pixel coordinates that the camera gives', 2)
    ctx.rule('rpc', 'RPC and control point models are used with integer pixel coordinates at the pixel centres', 1)
    for eq in (False, True):
        ortho(ctx, eq)
    for kind in ('pinhole', 'rpc'):
        surface(ctx, kind)
        resample(ctx, kind)
    rpc(ctx)
    gcp(ctx)
    c10.image_gcps(Part(ctx))


def half(ctx, rule, key, diffs, loc):
    """Differences from the expected coordinates, as numbers of pixels: only constants are offsets within pixels."""
    c = [d.const() if d is not None else None for d in diffs]
    if any(x is None for x in c):
        return
    bad = [f'{float(x):+g}' for x in c]
    ctx.ob(rule, key, all(x == 0 for x in c), f'the coordinates are ({", ".join(bad)}) pixels off the pixel centres', loc)


def ortho(ctx, eq):
    g = geo(ctx.repo, eq)
    ctx.seen(g.E, 'Ortho')
    lab = 'DEM in the CRS and resolution of the ortho' if eq else 'reprojected DEM'
    for e, x, w in tiles(g):
        a = remap_args(x)
        v = [unlazy(g.A.val(a[q])) if q in a else None for q in 'xy']
        off = g.offsets(w)
        if any(not isinstance(q, Rat) for q in v) or off is None:
            continue
        O = base('out')
        want = O.apply(scalar('col') + off[1] + HALF, scalar('row') + off[0] + HALF)
        half(ctx, 'grid', f'{lab}, {e.name[1:]}()', [(p - q) / u for p, q, u in zip(v, want, (O.m[0][0], O.m[1][1]))], where(e))
    for e in g.calls('cv2.fillPoly'):
        p = poly_points(g, e)
        if p is None:
            continue
        ji, o, _ = p
        T = array_transform(g, o)
        d = []
        for v, k, c, f in zip(ji, 'xy', (T.m[0][2], T.m[1][2]), (T.m[0][0], T.m[1][1])):
            at = [a for a in v.atoms() if str(POOL.keys[a][1]).startswith(k + '@')]
            d.append(v - (atom(POOL.keys[at[0]]) - c) / f + HALF if at else None)
        half(ctx, 'mask', lab, d, where(e))


class CamGeo(Geo):
    """Operations of a camera, with opaque projections."""

    def __init__(self, repo, kind):
        self.E = E = scen.new(repo, crs=('CRS',), xyz=('tuple',), opk=('tuple',))
        self.equal = False
        self.cam, _, _ = scen.camera(E, kind, const(True) if kind in scen.FRAME else None, True)
        E.fn_values['pixel_to_world_z'] = lambda E, fv, env: mk('call', mk('ext', 'vt.to_world'), (E.freeze(env.get('ji', NONE)), E.freeze(env.get('z', NONE))), ())
        E.fn_values['world_to_pixel'] = lambda E, fv, env: mk('call', mk('ext', 'vt.to_pixel'), (E.freeze(env.get('xyz', NONE)),), ())
        self.affs = {}
        self.A = Algebra(opaque=self.opaque, lim=FULL, dotlim=FULL, generic=True)
        self.A.truth = self.truth
        self.memo, self.errs, self.events = {}, [], []

    def run(self, name, args, kw):
        if self.cam is None:
            return None
        v, _, self.events = self.E.run(self.E.getattr_(self.cam, name), args, kw)
        return v

    def aff_(self, t):
        if t.k == 'sym' and t.a[0] == 'transform':
            return base('surf')
        return Geo.aff_(self, t)

    def opaque(self, x):
        if x.k == 'call' and callname(x) == 'vt.to_world':
            return arr(scalar(f'{q}@w') for q in 'xyz')
        if x.k == 'call' and callname(x) == 'vt.to_pixel':
            return arr([scalar('pj'), scalar('pi')])
        if x.k == 'sub' and x.a[1].k == 'tuple' and len(x.a[1].a) == 2 and full(x.a[1].a[0]) and pyval(x.a[1].a[1])[0]:
            v = unlazy(self.A.val(x.a[0]))
            if isinstance(v, Arr) and v.n == 3 and not v.is_mat():
                return v             # one of the points
        if x.k == 'call' and x.a[0].k == 'attr' and x.a[0].a[1] in ('reshape', 'astype', 'ravel', 'flatten', 'copy'):
            return self.A.val(x.a[0].a[0])
        if x.k == 'upd':
            v, m = unlazy(self.A.val(x.a[0])), x.a[1]
            if isinstance(v, Arr) and any(y.k == 'call' and callname(y) in ('numpy.isnan', 'numpy.isfinite') for y in subterms(m)):
                return v             # coordinates that are not numbers are the matter of another property
        if x.k == 'call' and callname(x) in ('numpy.nan_to_num', 'numpy.where') and x.a[1]:
            return self.A.val(x.a[1][-1] if callname(x) == 'numpy.where' else x.a[1][0])
        if x.k == 'call' and callname(x) in ('numpy.float32',) and x.a[1]:
            return self.A.val(x.a[1][0])
        return Geo.opaque(self, x)


@lru_cache(None)
def camgeo(repo, kind):
    return CamGeo(repo, kind)


MAPS = ('src', 'map1', 'map2', 'interpolation')


def maps(g):
    """(event, map of columns, map of rows) of the image samplings."""
    out = []
    for e in g.calls('cv2.remap'):
        a = g.expand([g.term(q) for q in e.data['args']])
        a = dict(zip(MAPS, a), **{k: g.term(q) for k, q in e.data['kwargs'].items()})
        if 'map1' not in a:
            continue
        v = [unlazy(g.A.val(a[q])) if q in a and a[q] is not NONE else None for q in ('map1', 'map2')]
        if v[1] is None and isinstance(v[0], Arr) and v[0].n == 2:
            v = [unlazy(q) for q in v[0].rows()]
        out.append((e, a, v))
    return out


def surface(ctx, kind):
    g = camgeo(ctx.repo, kind)
    ctx.seen(g.E, f'{kind} camera')
    g.run('world_boundary', [S('zarr')], dict(transform=S('transform'), interp=S('interp')))
    B = base('surf').inverse()
    want = B.apply(scalar('x@w'), scalar('y@w'))
    for e, a, v in maps(g):
        if a['src'].k != 'sym' or a['src'].a[0] != 'zarr':
            continue
        if any(not isinstance(q, Rat) for q in v):
            continue
        half(ctx, 'surface', f'world_boundary() of the {kind} camera', [p - q + HALF for p, q in zip(v, want)], where(e))


def resample(ctx, kind):
    g = camgeo(ctx.repo, kind)
    g.run('remap', [S('im_array'), S('x'), S('y'), S('z')], dict(nodata=S('nodata'), interp=S('interp')))
    for e, a, v in maps(g):
        if any(not isinstance(q, Rat) for q in v):
            continue
        half(ctx, 'resample', f'remap() of the {kind} camera', [v[0] - scalar('pj'), v[1] - scalar('pi')], where(e))


def rpc(ctx):
    n = [scalar('L'), scalar('P'), scalar('H')]
    P = arr(scalar(f'{a}_off') + scalar(f'{a}_scale') * x for a, x in zip(('long', 'lat', 'height'), n))
    poly = lambda c: total(symarr(c, 20).get(i) * m for i, m in enumerate(rpc_terms(*n)))
    want = [scalar(f'{a}_off') + scalar(f'{a}_scale') * poly(f'{a}_num_coeff') / poly(f'{a}_den_coeff') for a in ('samp', 'line')]
    for given in ('RPC', 'dict'):
        E = scen.new(ctx.repo, rpc=('rasterio.rpc.RPC',) if given == 'RPC' else ('dict',))
        cam, _, _ = E.run(E.modvar(Q + 'camera', 'RpcCamera'), [tup('w', 'h'), S('rpc')], {})
        ctx.seen(E, 'RPC camera')
        if cam is None:
            continue
        t = op(E, cam, 'world_to_pixel', W)
        if t is not None:
            A = Algebra(opaque=lambda x: P if x is W else c28.rpc_field(x), lim=FULL, dotlim=FULL, generic=True)
            try:
                v = unlazy(A.val(t))
            except TooBig:
                v = None
            if isinstance(v, Arr) and v.n in (2, None):
                d = [unlazy(v.get(i)) for i in range(2)]
                half(ctx, 'rpc', f'world_to_pixel(), RPC camera, parameters as {given}', [p - q if isinstance(p, Rat) else None for p, q in zip(d, want)], '')
        bad = c28.rpc_inverse(E, cam, NONE)
        if bad is not None and 'pixel centres' in bad or bad is None:
            ctx.ob('rpc', f'pixel_to_world_z(), RPC camera, parameters as {given}', bad is None, bad or '')


def gcp(ctx):
    """Camera with control points, where it can be made."""
    E = scen.new(ctx.repo)
    cam, _, _ = scen.camera(E, 'gcp')
    ctx.seen(E, 'GCP camera')
    if cam is None:
        return
    t = op(E, cam, 'world_to_pixel', W)
    if t is not None:
        off = [rat(0)]

        def opaque(x):
            if x.k == 'call' and (x.a[0].k == 'attr' and x.a[0].a[1] == 'rowcol' or callname(x) == 'rasterio.transform.rowcol'):
                kw = dict(x.a[2])
                return arr([scalar('ul_row'), scalar('ul_col')]) if 'op' in kw else None
        A = Algebra(opaque=opaque, lim=FULL, dotlim=FULL, generic=True)
        v = unlazy(A.val(t))
        if isinstance(v, Arr) and v.n in (2, None):
            d = [unlazy(v.get(i)) for i in range(2)]
            half(ctx, 'rpc', 'world_to_pixel(), GCP camera', [p - q + HALF if isinstance(p, Rat) else None for p, q in zip(d, (scalar('ul_col'), scalar('ul_row')))], '')
    bad = c28.rpc_inverse(E, cam, NONE)
    if bad is not None and 'pixel centres' in bad or bad is None:
        ctx.ob('rpc', 'pixel_to_world_z(), GCP camera', bad is None, bad or '')


class Part(c10.Part):
    def rule(self, *a):
        pass

    def ob(self, rule, key, ok, detail='', loc=None):
        self.ctx.ob('rpc', key, ok or "'ji'" not in detail, detail)
