"""C26: pixel arrays and their georeferencing are cropped and offset together."""
from .geo import *
from .geo import geo, pangeo


def check(ctx):
    ctx.rule('pixel', 'the world coordinates computed for each pixel of a tile are those of that pixel of the elevation array, in the grid the array was cropped from', 2)
    ctx.rule('tile', 'each tile is written to the window of the output that its world coordinates were computed for', 2)
    ctx.rule('array', 'an affine transform used with an array is that of the array', 1)
    ctx.rule('size', 'the width and height of the output are the numbers of columns and rows of the array it is computed from', 1)
    for eq in (False, True):
        ortho(ctx, eq)
    ctx.rule('warp', 'the panchromatic and multispectral images are warped from their own georeferencing to the grid and size of one window', 2)
    ctx.rule('pan tile', 'pan-sharpened tiles are written to the window that both images were read from', 1)
    for mode in ('both', 'ms', 'pan'):
        sharpen(ctx, mode)


def out_subst(g):
    """Replaces the transform of the output by that it was opened with."""
    for e in g.calls('rasterio.open'):
        if 'transform' in e.data['kwargs']:
            T = g.aff(g.term(e.data['kwargs']['transform']))
            if T is not None:
                m = {('s', f'{k}@out'): T.m[i][j] for k, (i, j) in dict(a=(0, 0), c=(0, 2), e=(1, 1), f=(1, 2)).items()}
                return T, (lambda v: subst(v, m)), e
    return None, None, None


def part(v, unit):
    """A constant number of units, or None."""
    return (v / unit).const()


def array_transform(g, o):
    return base(o[0]) * translation(o[2], o[1])


def same_up_to_half(T, W):
    """Equal affine transforms, but for a constant number of pixels (which is the matter of another property)."""
    if T == W:
        return True
    d = [[x - y for x, y in zip(p, q)] for p, q in zip(T.m, W.m)]
    z = rat(0)
    return d[0][0] == z and d[0][1] == z and d[1][0] == z and d[1][1] == z and part(d[0][2], W.m[0][0]) is not None and part(d[1][2], W.m[1][1]) is not None


def ortho(ctx, eq):
    g = geo(ctx.repo, eq)
    ctx.seen(g.E, 'Ortho')
    lab = 'DEM in the CRS and resolution of the ortho' if eq else 'reprojected DEM'
    T, out, eo = out_subst(g)
    for e, x, w in tiles(g):
        key = f'{lab}, {e.name[1:]}()'
        a = remap_args(x)
        v = [unlazy(g.A.val(a[q])) if q in a else None for q in 'xy']
        o = g.origin(a['z']) if 'z' in a else None
        off = g.offsets(w)
        if any(not isinstance(q, Rat) for q in v) or o is None or out is None:
            ctx.ob('pixel', key, False, 'the coordinates of the pixels, the elevation array or the transform of the output cannot be resolved', where(e))
            continue
        h = rat(Fraction(1, 2))
        W = array_transform(g, o).apply(scalar('col') + h, scalar('row') + h)
        u = base(o[0]).m[0][0], base(o[0]).m[1][1]
        bad = [q for q, p, r, s in zip('xy', v, W, u) if part(out(p) - r, s) is None]
        ctx.ob('pixel', key, not bad, f'the {" and ".join(bad)} of the pixels is not that of the elevations, as georeferenced in the output', where(e))
        if off is None:
            ctx.ob('tile', key, False, 'the window cannot be resolved', where(e))
            continue
        W = base('out').apply(scalar('col') + off[1] + h, scalar('row') + off[0] + h)
        bad = [q for q, p, r, s in zip('xy', v, W, 'ae') if part(p - r, scalar(f'{s}@out')) is None]
        ctx.ob('tile', key, not bad, f'the {" and ".join(bad)} of the pixels is not that of the window written', where(e))
    for e in g.cam_calls('world_boundary'):
        a = dict(zip(('z', 'num_pts', 'transform', 'interp'), [g.term(q) for q in e.data['args']]), **{k: g.term(q) for k, q in e.data['kwargs'].items()})
        o = g.origin(a['z']) if 'z' in a else None
        t = g.aff(a['transform']) if 'transform' in a else None
        if o is None or t is None:
            continue
        ctx.ob('array', f'{lab}, world_boundary()', t == array_transform(g, o), 'the transform passed with the elevations is not theirs', where(e))
    for e in g.calls('rasterio.warp.reproject'):
        kw = {k: g.term(q) for k, q in e.data['kwargs'].items()}
        s = g.term(e.data['args'][0]) if e.data['args'] else kw.get('source')
        o = g.origin(s) if s is not None else None
        t = g.aff(kw['src_transform']) if 'src_transform' in kw else None
        if o is not None and t is not None:
            ctx.ob('array', f'{lab}, reproject()', t == array_transform(g, o), 'the source transform is not that of the array', where(e))
    for e in g.calls('rasterio.transform.array_bounds'):
        a = [g.term(q) for q in e.data['args']]
        t = g.aff(a[-1]) if a else None
        sh = [y.a[0] for q in a[:-1] for y in subterms(q) if y.k == 'attr' and y.a[1] == 'shape']
        o = g.origin(sh[0]) if sh else None
        if t is not None and o is not None:
            ctx.ob('array', f'{lab}, array_bounds()', t == array_transform(g, o), 'the transform is not that of the array whose shape is used', where(e))
    for e in g.calls('cv2.fillPoly'):
        polygon(ctx, g, e, lab)
    if eo is not None:
        used = [g.origin(remap_args(x)['z']) for _, x, _ in tiles(g) if 'z' in remap_args(x)]
        for n, q in (('height', 'rows'), ('width', 'cols')):
            t = eo.data['kwargs'].get(n)
            v = unlazy(g.A.val(g.term(t))) if t is not None else None
            p = g.pure(v) if isinstance(v, Rat) else None
            if p is None:
                continue
            ctx.ob('size', f'{lab}, {n}', p[0] == q, f'the {n} of the output is a number of {p[0]}', where(eo))


def polygon(ctx, g, e, lab):
    p = poly_points(g, e)
    if p is None:
        return
    (j, i), o, _ = p
    T = array_transform(g, o)
    for n, v, (k, c, f) in (('columns', j, ('x', T.m[0][2], T.m[0][0])), ('rows', i, ('y', T.m[1][2], T.m[1][1]))):
        at = [a for a in v.atoms() if str(POOL.keys[a][1]).startswith(k + '@')]
        d = v - (atom(POOL.keys[at[0]]) - c) / f if at else None
        ctx.ob('array', f'{lab}, {n} of the ortho polygon', d is not None and d.const() is not None, f'the {n} of the polygon are not those of its world coordinates in the array that is masked', where(e))


def sharpen(ctx, mode):
    g = pangeo(ctx.repo, mode)
    lab = dict(both='both images georeferenced', ms='multispectral image not georeferenced', pan='panchromatic image not georeferenced')[mode]
    ctx.seen(g.E, 'PanSharpen, ' + lab)
    vrts, grids, files = {}, {}, {}
    for e in g.vrts():
        kw = {k: g.term(v) for k, v in e.data['kwargs'].items()}
        src = g.file(g.term(e.data['args'][0])) if e.data['args'] else g.file(kw.get('src_dataset'))
        if src is None:
            continue
        s, t = (g.aff(kw[k]) if k in kw else None for k in ('src_transform', 'transform'))
        if s is None and 'src_transform' not in kw and mode == 'both':
            s = g.own(src)
        key = f'{lab}, {src} image'
        if t is None or s is None:
            ctx.ob('warp', key, False, 'the transforms of the warped image cannot be resolved', where(e))
            continue
        ctx.ob('warp', f'{key}, source', s == g.own(src), 'the source transform is not that of the image', where(e))
        size = [unlazy(g.A.val(kw[k])) if k in kw else None for k in ('width', 'height')]
        grid = None
        for n in ('pan', 'ms'):
            O = g.own(n)
            off = [part_of(t.m[i][2] - O.m[i][2], O.m[i][i]) for i in (0, 1)]
            if t.m[0][0] == O.m[0][0] and t.m[1][1] == O.m[1][1] and None not in [None if q is None else 1 for q in off]:
                grid = (n, off)
        bad = None
        if grid is None:
            bad = 'the target transform is not that of a window of one of the images'
        else:
            if any(not isinstance(q, Rat) for q in size):
                bad = 'the size of the target cannot be resolved'
            elif not g.window_of(grid, size, t):
                bad = 'the width and height of the target are not those of the window its transform is offset to'
        ctx.ob('warp', f'{key}, target', bad is None, bad or '', where(e))
        if grid is not None:
            res = e.data.get('result')
            if res is not None:
                grids[g.E.freeze(res).id] = grid[0]
                files[g.E.freeze(res).id] = (grid[0], src)
            vrts.setdefault((grid[0], tuple(str(x) for q in (grid[1], size) for x in q)), set()).add(src)
    read = {}
    for e in g.events:
        if e.kind == 'call' and e.name == '.read' and 'recv' in e.data:
            r = g.E.freeze(e.data['recv'])
            if r.id in files:
                w = e.data['kwargs'].get('window', e.data['args'][2] if len(e.data['args']) > 2 else None)
                o = g.offsets(g.term(w)) if w is not None else None
                read.setdefault(files[r.id][0], {}).setdefault(files[r.id][1], set()).add(str(o and [str(q) for q in o]))
    for k, v in read.items():
        ctx.ob('pan tile', f'{lab}, tiles read in the {k} grid', v.get('pan') == v.get('ms'), 'different windows are read from the panchromatic and multispectral images')
    for k, v in vrts.items():
        ctx.ob('warp', f'{lab}, images in the {k[0]} grid', v == {'pan', 'ms'}, 'the other image is not warped to the same window')
    for e in g.events:
        if e.kind == 'call' and e.name in ('.write', '.write_mask') and (e.data['args'] or e.data['kwargs']):
            a = g.term(e.data['args'][0]) if e.data['args'] else None
            w = e.data['kwargs'].get('window') or (e.data['args'][2] if len(e.data['args']) > 2 and e.name == '.write' else e.data['args'][1] if len(e.data['args']) > 1 and e.name == '.write_mask' else None)
            reads = [x for x in subterms(a) if x.k == 'call' and x.a[0].k == 'attr' and x.a[0].a[1] == 'read'] if a is not None else []
            if not reads or w is None:
                continue
            o = g.offsets(g.term(w))
            for x in reads:
                if any(grids.get(y.id) == 'ms' for y in subterms(x.a[0].a[0])):
                    continue        # statistics, at the resolution of the multispectral image
                rw = dict(x.a[2]).get('window')
                p = g.offsets(rw) if rw is not None else None
                bad = None
                if o is None or p is None:
                    bad = 'a window cannot be resolved'
                elif not (o[0] == p[0] and o[1] == p[1]):
                    bad = 'the window written is not the one that was read'
                ctx.ob('pan tile', f'{lab}, {e.name[1:]}()', bad is None, bad or '', where(e))
    for e in g.calls('rasterio.open'):
        kw = {k: g.term(v) for k, v in e.data['kwargs'].items()}
        if 'transform' in kw:
            t = g.aff(kw['transform'])
            O = g.own('pan')
            ok = t is not None and t.m[0][0] == O.m[0][0] and t.m[1][1] == O.m[1][1] and any(k[0] == 'pan' for k in vrts)
            if ok:
                off = [part_of(t.m[i][2] - O.m[i][2], O.m[i][i]) for i in (0, 1)]
                size = [unlazy(g.A.val(kw[k])) if k in kw else None for k in ('width', 'height')]
                ok = any(k == ('pan', tuple(str(x) for q in (off, size) for x in q)) for k in vrts)
            ctx.ob('warp', f'{lab}, output', ok, 'the georeferencing and size of the output are not those of the images it is computed from', where(e))


def part_of(d, unit):
    """Number of pixels of an offset, None if it is not one."""
    q = d / unit
    return None if {a for a in q.atoms()} & {a for a in unit.atoms()} else q
