"""C31: elevations are used in the vertical reference and units of the ortho CRS (algebraic value numbering of heights; a CRS transform of a height is an unknown linear function of it)."""
from .geo import *


def lin(src, dst):
    return scalar(f'k:{src}>{dst}'), scalar(f'b:{src}>{dst}')


class ZGeo(Geo):
    def coords(self, x):
        if callname(x) == 'rasterio.warp.transform':
            a = dict(zip(('src_crs', 'dst_crs', 'xs', 'ys', 'zs'), self.expand(x.a[1])), **dict(x.a[2]))
            s, d = self.frame(a.get('src_crs')), self.frame(a.get('dst_crs'))
            z = unlazy(self.A.val(a['zs'])) if 'zs' in a else None
            k, b = lin(s, d)
            if isinstance(z, Arr) and z.n is not None and z.n > 1:
                # several points at once
                zs = [unlazy(q) for q in z.rows()]
                f = lambda c: arr([scalar(f'{c}@{d}#{x.id}#{i}') for i in range(len(zs))])
                return arr([f('x'), f('y'), arr([k * q + b if isinstance(q, Rat) else scalar(f'?{x.id}#{i}') for i, q in enumerate(zs)])])
            while isinstance(z, Arr) and z.n == 1:
                z = unlazy(z.get(0))
            zr = k * z + b if isinstance(z, Rat) else scalar(f'?{x.id}')
            return arr([arr([scalar(f'x@{d}#{x.id}')]), arr([scalar(f'y@{d}#{x.id}')]), arr([zr])])
        return Geo.coords(self, x)


def num(g, t):
    v = unlazy(g.A.val(t))
    while isinstance(v, Arr) and v.n == 1:
        v = unlazy(v.get(0))
    return v if isinstance(v, Rat) else None


def heights(g, t):
    """Values of a height argument, with the elements of the collections it is taken from; None for what is no number."""
    for x, _ in leaves(t):
        if x.k == 'elem':
            v = unlazy(g.A.val(x.a[0]))
            if isinstance(v, Arr) and v.n is not None:
                for q in v.rows():
                    q = unlazy(q)
                    yield q if isinstance(q, Rat) else None
                continue
        yield num(g, x)


def unit(v):
    """The CRS a height is in: 'world', 'raw' (no vertical reference), or None for mixtures."""
    name = lambda q: {POOL.keys[a][1] for a in q.atoms() if POOL.keys[a][0] == 's' and isinstance(POOL.keys[a][1], str) and POOL.keys[a][1][:2] in ('k:', 'b:')}
    if not name(v):
        return 'raw'
    for s in ('dem', 'lla', 'src'):
        k, b = lin(s, 'world')
        if not name((v - b) / k):
            return 'world'
    k, b = lin('world', 'lla')
    if not name(v * k) or not name(v * k + b):
        return 'world'
    return None


def check(ctx):
    ctx.rule('reproject', 'a DEM is reprojected with a vertical shift, and with the scale between the vertical units of its CRS and of the ortho CRS', 1)
    ctx.rule('height', 'the heights at which the camera is intersected are in the vertical reference of the ortho CRS', 1)
    ctx.rule('surface', 'elevation arrays the camera is intersected with have been reprojected to the ortho CRS, unless they have it', 1)
    g = ZGeo(ctx.repo, False)
    ctx.seen(g.E, 'Ortho, DEM in another CRS')
    k, _ = lin('dem', 'world')
    for e in g.calls('rasterio.warp.reproject'):
        kw = {n: g.term(v) for n, v in e.data['kwargs'].items()}
        s = kw.get('apply_vertical_shift', NONE)
        ctx.ob('reproject', 'vertical shift', all(x in (TRUE, const('YES'), const('yes')) for x, _ in leaves(s)), f'apply_vertical_shift is {show(s, 2)}', where(e))
        m = kw.get('mult_factor_vertical_shift')
        v = num(g, m) if m is not None else None
        ctx.ob('reproject', 'vertical scale', v is not None and v == k,
               'no vertical scale is given' if m is None else f'the vertical scale {str(v)[:100] if v is not None else show(m, 4)} is not that from the CRS of the DEM to that of the ortho', where(e))
    for mode in (False, 'res'):
        g = g if mode is False else ZGeo(ctx.repo, mode)
        for n in ('world_boundary', 'remap'):
            for e in g.cam_calls(n):
                names = ('z', 'num_pts', 'transform', 'interp') if n == 'world_boundary' else ('im_array', 'x', 'y', 'z')
                a = dict(zip(names, [g.term(x) for x in e.data['args']]), **{q: g.term(v) for q, v in e.data['kwargs'].items()})
                if 'z' not in a:
                    continue
                o = [q for q in (g.origin(x) for x, c in leaves(a['z']) if not any('resolution' in syms(y) for y in c)) if q is not None]
                if o:
                    ctx.ob('surface', f'{n}() ({mode or "other resolution"})', all(q[0] == 'reproj' for q in o), 'the elevations are those of the DEM, without being reprojected', where(e))
                elif mode is False and n == 'world_boundary':
                    for v in heights(g, a['z']):
                        if v is not None:
                            u = unit(v)
                            ctx.ob('height', f'{n}() in {where(e)}', u == 'world', 'the height ' + ('has not been converted from the units of the DEM, or from metres' if u == 'raw' else 'is converted with another vertical scale') + f': {str(v)[:120]}', where(e))
