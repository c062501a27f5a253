"""C19: pan-sharpening uses and writes only pixels valid in all inputs."""
from .geo import *
from .geo import pangeo
from .pix import Pix, flat, TOP, NUM, NAN, NOD, Stack

CASES = {
    'invalid in the panchromatic image': (NOD, Stack((NUM, NUM))),
    'invalid in one multispectral band': (NUM, Stack((NUM, NOD))),
    'invalid in another multispectral band': (NUM, Stack((NOD, NUM))),
    'invalid in the multispectral image': (NUM, Stack((NOD, NOD))),
    'invalid in both images': (NOD, Stack((NOD, NOD))),
}
VALID = (NUM, Stack((NUM, NUM)))


def check(ctx):
    ctx.rule('warped', 'both images are warped to one declared nodata value, which marks their invalid pixels', 2)
    ctx.rule('written', 'pixels that are not valid in all bands hold the nodata value of the output', 4)
    ctx.rule('mask', 'the mask written is true exactly for the pixels that are valid in all bands', 2)
    ctx.rule('used', 'statistics and sharpened values are computed only from pixels that are valid in all bands', 1)
    ctx.rule('accumulated', 'counts, means and deviation products are accumulated over the tiles, weighted by the number of valid pixels', 1)
    for weights in ('list', 'none'):
        sharpen(ctx, weights)


@lru_cache(None)
def run(repo, weights):
    g = PanGeo.__new__(PanGeo)
    types = dict(pan_file=('DatasetReader',), ms_file=('DatasetReader',), out_file=('str',), ms_indexes=('list',))
    g.mode, g.equal = 'both', False
    g.E = E = scen.new(repo, **types, **(dict(weights=('list',)) if weights == 'list' else {}))
    g.o, _, g.ev0 = E.run(E.modvar(Q + 'pan_sharp', 'PanSharpen'), [S('pan_file'), S('ms_file')])
    g.ev1 = []
    if g.o is not None:
        _, _, g.ev1 = E.run(E.getattr_(g.o, 'process'), [S('out_file')], dict(
            pan_index=S('pan_index'), ms_indexes=S('ms_indexes'), weights=S('weights') if weights == 'list' else NONE, interp=S('interp'), progress=S('prog_list'), **OUT_KW))
    g.events = list(g.ev0) + list(g.ev1)
    g.affs, g.memo, g.errs = {}, {}, []
    g.A = Algebra(opaque=g.opaque, lim=FULL, dotlim=FULL, generic=True)
    g.A.truth = g.truth
    return g


def vrts(ctx, g, lab):
    """Warped image (as a term) -> source; the nodata value is nan."""
    files, nan = {}, True
    for e in g.vrts():
        kw = {k: g.term(v) for k, v in e.data['kwargs'].items()}
        src = g.file(g.term(e.data['args'][0])) if e.data['args'] else g.file(kw.get('src_dataset'))
        if src is None or e.data.get('result') is None:
            continue
        files[g.E.freeze(e.data['result']).id] = src
        v = Pix(lambda t, p: None).ev(kw['nodata']) if 'nodata' in kw else None
        ok = v == NAN or isinstance(v, (int, float)) and not isinstance(v, bool)
        if lab:
            ctx.ob('warped', f'{lab}, {src} image', ok, 'no nodata value is declared for the warped image', where(e))
        if v != NAN:
            nan = False
    return files, nan


def source(files, x):
    """The warped image that a term is."""
    if x.k == 'ite':
        s = {source(files, y) for y in x.a[1:]}
        return s.pop() if len(s) == 1 else None
    return files.get(x.id)


def scenario(files, case, out=None):
    def leaf(t, p):
        if t.k == 'isinst' and t.a[0].k == 'attr' and t.a[0].a[1] == 'fs':
            return True
        if t.k == 'call' and callname(t) == '.read':
            s = source(files, t.a[0].a[0])
            if s == 'pan':
                return case[0]
            if s == 'ms':
                return case[1]
        if t.k == 'attr' and t.a[1] == 'nodata':
            s = source(files, t.a[0])
            if s is not None:
                return NOD
            if t.a[0].k in ('obj', 'ite'):
                return out
        if t.k == 'truth' and t.a[0].k == 'attr' and t.a[0].a[1] == 'nodata' and source(files, t.a[0].a[0]) is None:
            return out == NAN or bool(out) if out is not None else False
        if t.k == 'cmp' and t.a[0] in ('is', 'isnot', 'is not') and NONE in t.a[1:]:
            x = t.a[1] if t.a[2] is NONE else t.a[2]
            if x.k == 'attr' and x.a[1] == 'nodata' and source(files, x.a[0]) is None:
                return (out is None) == (t.a[0] == 'is')
        if t.k == 'sub' and t.a[0].k == 'dict' and t.a[0].a and isinstance(t.a[0].a[0], tuple) and any(pyval(k)[1] == 'uint8' for k, _ in t.a[0].a):
            return out
        return None
    return leaf


def sharpen(ctx, weights):
    g = run(ctx.repo, weights)
    lab = 'weights given' if weights == 'list' else 'weights estimated'
    ctx.seen(g.E, f'PanSharpen, {lab}')
    files, nan = vrts(ctx, g, lab)
    done = set()
    for e in g.events:
        if e.kind != 'call' or e.name not in ('.write', '.write_mask') or not (e.data['args'] or e.data['kwargs']):
            continue
        t = g.term(e.data['args'][0] if e.data['args'] else e.data['kwargs'].get('arr', e.data['kwargs'].get('mask_array', e.data['kwargs'].get('mask'))))
        if t is None or not any(x.k == 'call' and callname(x) == '.read' and source(files, x.a[0].a[0]) for x in subterms(t)) or (e.name, t.id) in done:
            continue
        done.add((e.name, t.id))
        if e.name == '.write_mask':
            for what, case in list(CASES.items()) + [('valid in both images', VALID)]:
                v = Pix(scenario(files, case), nan).ev(t)
                b = v if isinstance(v, bool) else bool(v) if isinstance(v, (int, float)) else v
                ctx.ob('mask', f'{lab}, pixel {what}', b is (case is VALID), f'the mask is {b} for a pixel {what}', where(e))
            continue
        for what, case in CASES.items():
            for out, name in ((0, '0'), (-32768, '-32768'), (NAN, 'nan')):
                v = Pix(scenario(files, case, out), nan).ev(t)
                ok = all(x == out and type(x) is type(out) or isinstance(x, (int, float)) and isinstance(out, (int, float)) and x == out for x in flat(v))
                ctx.ob('written', f'{lab}, pixel {what}, nodata {name}', ok, f'the value of a pixel {what} is {flat(v)}, and nodata is {name}', where(e))
        bad = unmasked(g, files, nan, t)
        ctx.ob('used', f'{lab}, values written', bad is None, f'pixels of {bad} are used without selecting those valid in all bands', where(e))
        if weights == 'list' or weights == 'none':
            accumulated(ctx, g, files, nan, t, lab, e)


def valid_mask(files, nan, x):
    """Truth of a term for valid pixels and for each kind of invalid pixel: True if it selects exactly the valid ones, None if it is no mask."""
    v = [Pix(scenario(files, c), nan).ev(x) for c in (VALID,) + tuple(CASES.values())]
    if not all(isinstance(y, bool) for y in v):
        return None
    return v[0] is True and not any(v[1:])


def selected(g, files, nan, x):
    """x[mask], with a mask of the valid pixels."""
    if x.k != 'sub':
        return False
    ii = list(x.a[1].a) if x.a[1].k == 'tuple' else [x.a[1]]
    return any(i.k not in ('slice', 'const') and valid_mask(files, nan, i) is True for i in ii)


def unmasked(g, files, nan, t):
    """The first image whose pixels flow into a value without being selected by a mask of the valid ones."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                todo += list(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == 'attr' and x.a[1] in ('shape', 'size', 'ndim', 'dtype', 'nodata', 'width', 'height', 'profile'):
            continue
        if selected(g, files, nan, x):
            continue
        m = valid_mask(files, nan, x) if x.k in ('bin', 'call', 'un', 'cmp', 'sub', 'after', 'ite', 'upd', 'not', 'and', 'or') and reads(files, x) else None
        if m is True:
            continue
        if x.k == 'call' and callname(x) == '.read' and source(files, x.a[0].a[0]):
            return f'the {source(files, x.a[0].a[0])} image'
        if x.k == 'call' and x.a[0].k == 'ext' and x.a[0].a[0] in ('builtins.len', 'numpy.shape', 'numpy.full', 'numpy.empty', 'numpy.zeros', 'numpy.zeros_like', 'numpy.full_like', 'numpy.empty_like'):
            continue
        todo += list(x.a)
    return None


def reads(files, x):
    return any(y.k == 'call' and callname(y) == '.read' and source(files, y.a[0].a[0]) for y in subterms(x))


def accumulated(ctx, g, files, nan, t, lab, e):
    """Each pass of the loop over the tiles combines the statistics so far with those of the tile."""
    aft = [x for x in subterms(t) if x.k == 'after' and x.a[2] is not None]
    ids = {x.a[0] for x in aft if stats_loop(files, x)}
    for u in ids:
        loop = [x for x in aft if x.a[0] == u]
        vals = {}
        for x in loop:
            v = [value(g, files, nan, x, u, some) for some in (True, False)]
            vals[x.id] = v
        if any(v is None for q in vals.values() for v in q):
            continue        # not of a form that is understood
        n1, M, SXX = scalar('n1'), scalar('M1'), scalar('SXX')
        ok = None
        L = {x.id: scalar(f'lv:{x.a[1]}') for x in loop}
        for n in loop:
            for m in loop:
                for p in loop:
                    if len({n.id, m.id, p.id}) < 3 or ok:
                        continue
                    N, m0, p0 = L[n.id], L[m.id], L[p.id]
                    want = {n.id: N + n1, m.id: (N * m0 + n1 * M) / (N + n1), p.id: p0 + SXX - n1 * M * M + (M - m0) * (M - m0) * N * n1 / (N + n1)}
                    if all(vals[i][0] == want[i] for i in want) and all(vals[i][1] == L[i] for i in want):
                        ok = (n, m, p)
        ctx.ob('accumulated', f'{lab}, statistics', ok is not None, 'the count, means and deviation products of a tile are not combined with those of earlier tiles by their numbers of valid pixels', where(e))


def stats_loop(files, x):
    return reads(files, x.a[3]) and not reads(files, x.a[2]) and any(y.k == 'call' and callname(y) in ('.sum', 'numpy.sum', 'numpy.count_nonzero', 'builtins.sum', '.mean', 'numpy.mean') and reads(files, y) for y in subterms(x.a[3]))


def value(g, files, nan, x, u, some, first=False):
    """New value of a loop variable in terms of the old ones and of the count n1, mean M1 and sum of squares SXX of the pixels of the tile (1-D abstraction)."""
    X, n1, M = scalar('X'), scalar('n1'), scalar('M1')
    if not some:
        n1 = rat(0)

    def is_sel(y):
        while True:
            if y.k == 'call' and callname(y) in ('.reshape', '.astype', '.copy', '.squeeze', '.ravel', '.flatten', 'numpy.atleast_2d', 'numpy.array', 'numpy.asarray') and (y.a[0].k == 'attr' or y.a[1]):
                y = y.a[0].a[0] if y.a[0].k == 'attr' else y.a[1][0]
            elif y.k == 'call' and callname(y) in ('numpy.concatenate', 'numpy.vstack', 'numpy.stack', 'numpy.row_stack', 'numpy.array') and y.a[1]:
                c = y.a[1][0]
                return c.k in ('tuple', 'list') and all(is_sel(z) for z in c.a)
            elif y.k in ('starred', 'star'):
                y = y.a[0]
            else:
                return selected(g, files, nan, y)

    def opaque(y):
        if y.k == 'lv' and y.a[0] == u:
            return rat(0) if first else scalar(f'lv:{y.a[1]}')
        if y.k == 'call' and callname(y) in ('.sum', 'numpy.sum', 'numpy.count_nonzero', 'builtins.sum'):
            q = y.a[0].a[0] if y.a[0].k == 'attr' else y.a[1][0]
            if valid_mask(files, nan, q) is True:
                return n1
        if y.k == 'attr' and y.a[1] == 'size' or y.k == 'sub' and y.a[0].k == 'attr' and y.a[0].a[1] == 'shape' and pyval(y.a[1])[1] in (1, -1):
            q = y.a[0] if y.k == 'attr' else y.a[0].a[0]
            if is_sel(q) and y.k == 'sub':
                return n1
        if is_sel(y):
            return X
        if y.k == 'call' and callname(y) in ('.mean', 'numpy.mean'):
            q = y.a[0].a[0] if y.a[0].k == 'attr' else y.a[1][0]
            if is_sel(q):
                return M
        if y.k == 'call' and callname(y) in ('.reshape', '.astype', '.copy', '.squeeze', '.ravel', '.transpose'):
            return A.val(y.a[0].a[0])
        if y.k == 'attr' and y.a[1] == 'T':
            return A.val(y.a[0])
        if y.k == 'sub' and all(z is NONE or z.k == 'slice' for z in (y.a[1].a if y.a[1].k == 'tuple' else [y.a[1]])) and y.a[0].k != 'const':
            return A.val(y.a[0])           # new axes
        if y.k in ('copyof',):
            return A.val(y.a[0])
        if y.k == 'call' and callname(y) in ('numpy.zeros', 'numpy.zeros_like'):
            return rat(0)
        if y.k == 'ite':
            c = A.truth(y.a[0])
            return A.val(y.a[1] if c else y.a[2]) if c is not None else None
        ab = None
        if y.k == 'bin' and y.a[0] == '@':
            ab = y.a[1:]
        elif y.k == 'call' and callname(y) in ('.dot', '.outer'):
            ab = (y.a[0].a[0], y.a[1][0])
        elif y.k == 'call' and callname(y) in ('numpy.dot', 'numpy.outer', 'numpy.matmul', 'numpy.inner'):
            ab = y.a[1][:2]
        if ab is not None:
            p, q = (unlazy(A.val(z)) for z in ab)
            if isinstance(p, Rat) and isinstance(q, Rat):
                return dot(p, q)
        return None

    def dot(p, q):
        """Sum over the pixels of the product of two linear functions of the pixel value."""
        one = lambda v: subst(v, {('s', 'X'): rat(1)}) - subst(v, {('s', 'X'): rat(0)})
        zero = lambda v: subst(v, {('s', 'X'): rat(0)})
        has = lambda v: any(POOL.keys[a] == ('s', 'X') for a in v.atoms())
        if not has(p) and not has(q):
            return p * q
        if not (has(p) and has(q)):
            return None
        if any(v != one(v) * X + zero(v) for v in (p, q)):
            return None
        a, b, c, d = one(p), zero(p), one(q), zero(q)
        return a * c * (scalar('SXX') if some else rat(0)) + (a * d + b * c) * n1 * M + n1 * b * d

    def truth(c):
        if c.k == 'truth':
            v = unlazy(A.val(c.a[0]))
            if isinstance(v, Rat) and v == n1:
                return some
        if c.k == 'not':
            r = truth(c.a[0])
            return None if r is None else not r
        if c.k == 'and':
            r = [truth(z) for z in c.a]
            return False if False in r else None if None in r else True
        if c.k == 'cmp':
            v = [unlazy(A.val(z)) for z in c.a[1:]]
            if all(isinstance(z, Rat) for z in v):
                z = rat(0)
                op = c.a[0]
                n = scalar('n1') if some else None
                if some and v[0] == z and v[1] == n1:
                    return {'<': True, '<=': True, '==': False, '!=': True, '>': False, '>=': False}.get(op)
                if some and v[1] == z and v[0] == n1:
                    return {'>': True, '>=': True, '==': False, '!=': True, '<': False, '<=': False}.get(op)
                a, b = v[0].const(), v[1].const()
                if a is not None and b is not None:
                    return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}.get(op)
        return None
    A = Algebra(opaque=opaque, lim=FULL, dotlim=FULL, generic=True)
    A.truth = truth
    try:
        v = unlazy(A.val(x.a[3]))
        if isinstance(v, Rat) and not some and not first:
            # the first tile may have no valid pixels
            if value(g, files, nan, x, u, False, True) != rat(0):
                return scalar('undefined')
    except ZeroDivisionError:
        return scalar('undefined')
    except TooBig:
        return None
    return v if isinstance(v, Rat) else None
