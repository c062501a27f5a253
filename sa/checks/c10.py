"""C10: coordinates keep their axis order and CRS through every conversion."""
from .autocrs import *
from .geo import geo, pangeo
from .c28 import rpc
from . import c28

WARP = ('rasterio.warp.transform', 'rasterio.warp.transform_bounds')


def check(ctx):
    positions(ctx)
    auto_crs(ctx)
    written(ctx)
    image_gcps(ctx)
    rpc_transforms(ctx)
    for eq in (False, True):
        ortho(ctx, eq)
    sharpen(ctx)


def sharpen(ctx):
    ctx.rule('pan', 'the bounds that pan-sharpening transforms between images, and the windows found from them, are in the CRS and order they are used in', 2)
    g = pangeo(ctx.repo, 'both')
    ctx.seen(g.E, 'PanSharpen')
    for e in g.events:
        if e.kind != 'call' or e.name != WARP[1] and e.name != '.window':
            continue
        a = g.expand([g.term(x) for x in e.data['args']])
        names = tuple(q[0] for q in AXES[WARP[1]])
        if e.name == WARP[1]:
            names = ('src_crs', 'dst_crs') + names
        a = dict(zip(names, a), **{k: g.term(v) for k, v in e.data['kwargs'].items()})
        f = g.frame(a['src_crs']) if 'src_crs' in a else g.file(g.E.freeze(e.data['recv'])) if 'recv' in e.data else None
        if f is None:
            continue
        for n, ax, how in AXES[WARP[1]]:
            tags = g.axis(a[n]) if n in a else None
            if tags:
                bad = wrong_axis(tags, ax, f, how)
                ctx.ob('pan', f'{e.name.split(".")[-1]}() {n}', bad is None, bad or '', where(e))


def positions(ctx):
    ctx.rule('position', 'positions are converted from (longitude, latitude, altitude), or (x, y, z), in the CRS they are in, to (x, y, z) in the world CRS', 8)
    for p in poses(ctx.repo):
        ctx.seen(p.E, p.label)
        r, o, bad = found(p)
        bad = bad or getattr(p, 'bad', None) or ('the position cannot be resolved' if r is None else None)
        if bad is None and p.errs:
            bad = p.errs[0]
        if bad is None:
            w = [n for n, x, y in zip('xyz', r, p.pos_want) if not x == y]
            bad = f'{", ".join(w)} of the exterior parameters is not that of the position' if w else None
        ctx.ob('position', p.label, bad is None, bad or '')
    E, vals = legacy(ctx.repo)
    ctx.seen(E, 'simple-ortho command')
    for n, x, o, e in vals:
        w = [scalar('f_' + q) for q in FIELDS['xyz']]
        bad = x is None or any(not isinstance(a, Rat) or not a == b for a, b in zip(x, w))
        ctx.ob('position', f'simple-ortho, {n}', not bad, 'the position of the camera is not (x, y, z) of the file', where(e))


def auto_crs(ctx):
    ctx.rule('auto', 'a CRS found automatically is the UTM zone, and hemisphere, of the mean latitude and longitude', 3)
    for n, p, t, pts in auto(ctx.repo):
        ctx.seen(p.E, n + ' without CRS')
        bad = 'the CRS cannot be resolved' if t is None else wrong_zone(p, t, pts)
        ctx.ob('auto', n, bad is None, bad or '')


def point_crs(names):
    """CRS terms by the symbols they are made of."""
    def crs(t):
        if t is None:
            return None
        s = syms(t)
        if len(s) == 1 and next(iter(s)) in names:
            return next(iter(s))
        return 'lla' if not s and '4979' in show(t, 4) else None
    return crs


def written(ctx):
    ctx.rule('written', 'exported positions are the (longitude, latitude, altitude) that (x, y, z) in the world CRS is transformed to', 1)
    E = scen.new(ctx.repo, **TYPES)
    ext = D(E, a__jpg=D(E, xyz=tup(*[S('p' + q) for q in 'xyz']), opk=tup(S('om'), S('ph'), S('ka')), camera=const('c')))
    _, esc, ev = E.run(E.modvar(Q + 'param_io', 'write_ext_param'), [S('file'), ext, S('crs')], {})
    ctx.seen(E, 'write_ext_param')
    p = Pose(E, 'write_ext_param', None, esc)
    p.crs = point_crs(('crs', 'lla_crs'))
    src = [scalar('p' + q) for q in 'xyz']

    def point(a, b, x, y, z):
        if (a, b) != ('crs', 'lla') or not (x == src[0] and y == src[1] and z == src[2]):
            p.errs.append(f'({str(x)[:30]}, {str(y)[:30]}, {str(z)[:30]}) is transformed from {a or "another CRS"} to {b or "another CRS"}, not (x, y, z) from the world CRS to longitude, latitude and altitude')
        return [scalar('lon'), scalar('lat'), scalar('alt')]
    p.point = point
    n = 0
    seen = set()
    for e in ev:
        if e.kind != 'call' or e.name not in ('json.dump', 'json.dumps') or not e.data['args']:
            continue
        t = E.freeze(e.data['args'][0])
        for g in subterms(t):
            if g.k != 'dict' or field(g, 'coordinates') is None or g in seen:
                continue
            seen.add(g)
            v = unlazy(p.A.val(field(g, 'coordinates')))
            c = [unlazy(v.get(i)) for i in range(3)] if isinstance(v, Arr) and v.n in (3, None) else None
            bad = p.errs[0] if p.errs else None
            if bad is None and (c is None or any(not isinstance(x, Rat) or not x == scalar(q) for x, q in zip(c, ('lon', 'lat', 'alt')))):
                bad = 'the coordinates of the point are not (longitude, latitude, altitude)'
            n += 1
            ctx.ob('written', 'write_ext_param', bad is None, bad or '', where(e))
    if not n:
        ctx.ob('written', 'write_ext_param', False, 'the coordinates written cannot be resolved')


def image_gcps(ctx):
    ctx.rule('gcps', 'control points of an image are read as (column, row) pixel coordinates, and (longitude, latitude, height) transformed from (x, y, z) in the CRS of the image', 2)
    for same in (True, False):
        E = scen.new(ctx.repo, gcrs=('CRS',), **TYPES)
        for k in range(2):
            for q in ('row', 'col', 'x', 'y', 'z', 'id', 'info'):
                E.attr_values[f'gcp{k}', q] = S(f'gcp{k}_{q}')
        E.attr_values['src_file', 'gcps'] = mk('tuple', mk('list', S('gcp0'), S('gcp1')), S('gcrs'))
        v, esc, _ = E.run(E.modvar(Q + 'param_io', 'read_im_gcps'), [mk('tuple', S('src_file'))], {})
        lab = 'read_im_gcps, image GCPs in ' + ('the geographic CRS' if same else 'another CRS')
        ctx.seen(E, lab)

        def fold(x):
            if x.k == 'cmp' and x.a[0] in ('==', '!=') and 'gcrs' in syms(x) and '4979' in show(x, 6):
                return TRUE if (x.a[0] == '==') == same else FALSE
        p = Pose(E, lab, v, esc, fold=fold)
        p.crs = point_crs(('gcrs',))
        src = [[scalar(f'gcp{k}_{q}') for q in 'xyz'] for k in range(2)]
        lla = [[scalar(f'{q}{k}') for q in ('lon', 'lat', 'alt')] for k in range(2)]

        def point(a, b, x, y, z):
            for k in range(2):
                if (a, b) == ('gcrs', 'lla') and x == src[k][0] and y == src[k][1] and z == src[k][2]:
                    return lla[k]
            p.errs.append(f'({str(x)[:30]}, {str(y)[:30]}, {str(z)[:30]}) is transformed from {a or "another CRS"} to {b or "another CRS"}, not (x, y, z) from that of the image to longitude, latitude and height')
            return [scalar('?')] * 3
        p.point = point
        l = unroll(p.entry(), 2)
        bad = None
        if l is None:
            bad = 'the control points cannot be resolved'
        else:
            for k, g in enumerate(l):
                for key, want in (('ji', [scalar(f'gcp{k}_col'), scalar(f'gcp{k}_row')]), ('xyz', src[k] if same else lla[k])):
                    f = field(g, key)
                    v = unlazy(p.A.val(f)) if f is not None else None
                    c = [unlazy(v.get(i)) for i in range(len(want))] if isinstance(v, Arr) and v.n in (len(want), None) else None
                    if bad is None and p.errs:
                        bad = p.errs[0]
                    if bad is None and (c is None or any(not isinstance(x, Rat) or not x == w for x, w in zip(c, want))):
                        bad = "'ji' is not (column, row)" if key == 'ji' else "'xyz' is not (longitude, latitude, height)"
        ctx.ob('gcps', lab, bad is None, bad or '')


def unroll(l, n):
    """Items of a list with n items, where it may be made by a loop over n items."""
    if l is not None and l.k == 'call' and callname(l) in ('builtins.list', 'builtins.tuple') and len(l.a[1]) == 1:
        l = l.a[1][0]
    if l is None or l.k not in ('list', 'tuple'):
        return None
    if len(l.a) == 1 and l.a[0].k == 'star' and len(l.a[0].a) == 3 and len(l.a[0].a[1]) == 1:
        s = l.a[0]
        (_, u), = s.a[1]

        def item(k):
            def f(x):
                if x.k == 'elem' and x.a[1] == u:
                    c = x.a[0]
                    if c.k in ('list', 'tuple') and len(c.a) == n:
                        return c.a[k]
                    return mk('sub', c, const(k))
                if x.k == 'index' and x.a[0] == u:
                    return const(k)
                if x.k == 'attr' and x.a[0].k == 'sym' and x.a[0].a[0].startswith('gcp'):
                    return S(f'{x.a[0].a[0]}_{x.a[1]}')
                return None
            return simp(simp(s.a[0], f), f)
        return [item(k) for k in range(n)]
    return list(l.a) if len(l.a) == n else None


class Part:
    """Passes on what a check found about transforms only."""

    def __init__(self, ctx):
        self.ctx, self.repo = ctx, ctx.repo

    def seen(self, *a):
        self.ctx.seen(*a)

    def ob(self, rule, key, ok, detail='', loc=None):
        if not ok and 'transformed' not in detail and 'RPC transform' not in detail:
            ok = True
        self.ctx.ob('rpc', f'{rule}, {key}', ok, detail)


def rpc_transforms(ctx):
    ctx.rule('rpc', 'coordinates are transformed between the CRS of an RPC model and that of the camera, as (x, y, z) and (longitude, latitude, height)', 2)
    rpc(Part(ctx))


AXES = {'rasterio.warp.transform': (('xs', 'x', None), ('ys', 'y', None), ('zs', 'z', None)),
        'rasterio.warp.transform_bounds': (('left', 'x', 'min'), ('bottom', 'y', 'min'), ('right', 'x', 'max'), ('top', 'y', 'max'))}
PX = dict(cols='x', rows='y')


def wrong_axis(tags, ax, frame, how):
    """What is wrong with a coordinate that should be along an axis of a CRS, given the values it is made from."""
    for q, f, h in sorted(tags, key=str):
        if f == 'px':
            if PX.get(q, ax) != ax:
                return f'the {ax} coordinate is made from a number of {q}'
        elif q in 'xyz' and q != ax:
            return f'the {ax} coordinate is made from {q}'
        elif f is not None and frame is not None and f != frame:
            return f'the {ax} coordinate is in the CRS {NAME.get(f, f)} and used in the CRS {NAME.get(frame, frame)}'
        elif how and h and h != how:
            return f'the {how}imum of {ax} is a {h}imum'
    return None


NAME = dict(pan='of the panchromatic image', ms='of the multispectral image', world='of the ortho', dem='of the DEM', lla='EPSG:4979', src='of the source image')


def surface(ctx):
    """The elevations an ortho is made from are on a grid with the CRS and resolution of the ortho."""
    ctx.rule('surface', 'the elevations used for an ortho have its CRS and resolution', 2)
    for mode, lab in (('res', 'DEM in another CRS with the resolution of the ortho'), ('crs', 'DEM in the CRS of the ortho with another y resolution'), (False, 'DEM in another CRS')):
        g = geo(ctx.repo, mode)
        for e in g.cam_calls('remap'):
            a = dict(zip(('im_array', 'x', 'y', 'z'), [g.term(x) for x in e.data['args']]), **{k: g.term(v) for k, v in e.data['kwargs'].items()})
            o = [q for q in (g.origin(x) for x, c in leaves(a['z']) if not any('resolution' in syms(q) for q in c)) if q is not None] if 'z' in a else []
            if o:
                ctx.ob('surface', lab, all(q[0] == 'reproj' for q in o), 'the DEM is used without being reprojected', where(e))


def ortho(ctx, eq):
    g = geo(ctx.repo, eq)
    E = g.E
    lab = 'DEM in the CRS of the ortho' if eq else 'DEM in another CRS'
    ctx.seen(E, 'Ortho, ' + lab)
    ctx.rule('ortho', 'every coordinate that orthorectification transforms, or uses with the camera or the DEM, is along the axis and in the CRS it is used as', 4)
    loc = lambda e: where(e)

    def coord(key, t, ax, frame, how=None, e=None):
        tags = g.axis(t) if t is not None else None
        if tags is None:
            return
        tags = {q for q in tags if q[1] is not None}
        if tags:
            bad = wrong_axis(tags, ax, None if eq else frame, how)
            ctx.ob('ortho', f'{lab}: {key}', bad is None, bad or '', loc(e))
    for e in g.events:
        if e.kind != 'call':
            continue
        if e.name in WARP:
            a = [g.term(x) for x in e.data['args']]
            a = dict(zip(('src_crs', 'dst_crs') + tuple(q[0] for q in AXES[e.name]), g.expand(a)))
            a.update({k: g.term(v) for k, v in e.data['kwargs'].items()})
            f = g.frame(a.get('src_crs'))
            if f is None:
                continue
            for n, ax, how in AXES[e.name]:
                if n in a:
                    coord(f'{e.name.split(".")[-1]}() {n}', a[n], ax, f, how, e)
        elif e.name == '.window' and is_file(g, e, 'dem_file'):
            a = g.expand([g.term(x) for x in e.data['args']])
            a = dict(zip(('left', 'bottom', 'right', 'top'), a), **{k: g.term(v) for k, v in e.data['kwargs'].items()})
            for n, ax, how in AXES[WARP[1]]:
                if n in a:
                    coord(f'DEM window() {n}', a[n], ax, 'dem' if not eq else None, how, e)
        elif e.name == 'rasterio.transform.array_bounds':
            a = g.expand([g.term(x) for x in e.data['args']])
            a = dict(zip(('height', 'width', 'transform'), a), **{k: g.term(v) for k, v in e.data['kwargs'].items()})
            for n, ax in (('height', 'y'), ('width', 'x')):
                if n in a:
                    coord(f'array_bounds() {n}', a[n], ax, None, None, e)
        elif e.name == 'rasterio.warp.reproject':
            kw = {k: g.term(v) for k, v in e.data['kwargs'].items()}
            s = g.term(e.data['args'][0]) if e.data['args'] else kw.get('source')
            o = g.origin(s) if s is not None else None
            f = g.frame(kw['src_crs']) if 'src_crs' in kw else None
            if o is not None and f is not None:
                ctx.ob('ortho', f'{lab}: source CRS of reproject()', f == o[0], f'the CRS {NAME.get(f, f)} is given for an array with the CRS {NAME.get(o[0], o[0])}', loc(e))
            f = g.frame(kw['dst_crs']) if 'dst_crs' in kw else None
            if f is not None:
                ctx.ob('ortho', f'{lab}: destination CRS of reproject()', f == 'world', f'the DEM is reprojected to the CRS {NAME.get(f, f)}', loc(e))
            if 'dst_resolution' in kw:
                v = unlazy(g.A.val(kw['dst_resolution']))
                if isinstance(v, Arr) and v.n == 2 or isinstance(v, Arr) and v.n is None:
                    k = [str(v.get(i)) for i in range(2)]
                    bad = '[1]' in k[0] and '[0]' in k[1]
                    ctx.ob('ortho', f'{lab}: resolution of reproject()', not bad, 'the x and y resolutions are exchanged', loc(e))
        elif e.name == 'rasterio.open' and 'crs' in e.data['kwargs']:
            f = g.frame(g.term(e.data['kwargs']['crs']))
            if f is not None:
                ctx.ob('ortho', f'{lab}: CRS of the ortho', f == 'world', f'the ortho is written with the CRS {NAME.get(f, f)}', loc(e))
    if not eq:
        surface(ctx)
    for e in g.cam_calls('remap'):
        a = dict(zip(('im_array', 'x', 'y', 'z'), [g.term(x) for x in e.data['args']]), **{k: g.term(v) for k, v in e.data['kwargs'].items()})
        for q in 'xy':
            coord(f'Camera.remap() {q}', a.get(q), q, None, None, e)
    for n in ('world_boundary', 'pixel_to_world_z'):
        for e in g.cam_calls(n):
            names = ('z',) if n == 'world_boundary' else ('ji', 'z')
            a = dict(zip(names, [g.term(x) for x in e.data['args']]), **{k: g.term(v) for k, v in e.data['kwargs'].items()})
            q = g.pure(unlazy(g.A.val(a['z']))) if 'z' in a else None
            if q is not None:
                coord(f'{n}() z', a['z'], 'z', 'world', None, e)


def is_file(g, e, name):
    r = g.E.freeze(e.data['recv']) if 'recv' in e.data else None
    return r is not None and r.k == 'sym' and r.a[0] == name
