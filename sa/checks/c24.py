"""C24: tiles cover the image exactly once, bands are processed exactly once."""
from .common import *

WIN = {'rasterio.windows.Window'}
MIN = ('builtins.min', 'numpy.minimum', 'numpy.min', 'numpy.amin')


def pdiff(a, b):
    r = dict(poly(a))
    for m, c in poly(b).items():
        r[m] = r.get(m, 0) - c
        if r[m] == 0:
            del r[m]
    return r


def peq(a, b):
    return not pdiff(a, b)


def nocast(t):
    while callname(t) in ('builtins.int', 'builtins.round', 'numpy.int64', 'numpy.int32', 'builtins.float') and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def dim(t):
    """Axis ('x' / 'y') of an image dimension term and the images it is taken from."""
    ax, ims = set(), set()
    for x, _ in leaves(nocast(t)):
        if x.k == 'attr' and x.a[1] in ('width', 'height'):
            ax.add('x' if x.a[1] == 'width' else 'y')
            ims.add(x.a[0])
        elif x.k == 'sub' and x.a[0].k == 'attr' and x.a[0].a[1] == 'shape' and is_const(x.a[1]):
            ax.add({0: 'y', 1: 'x', -2: 'y', -1: 'x'}.get(x.a[1].a[1]))
            ims.add(x.a[0].a[0])
        elif x.k == 'sub' and is_const(x.a[1]) and x.a[1].a[1] in ('width', 'height') and x.a[0].k == 'attr' and x.a[0].a[1] in ('profile', 'meta'):
            ax.add('x' if x.a[1].a[1] == 'width' else 'y')
            ims.add(x.a[0].a[0])
        else:
            return None, set()
    return (ax.pop(), ims) if len(ax) == 1 else (None, set())


def is_ceildiv(t, n, s):
    """t == ceil(n / s)."""
    t = nocast(t)
    if callname(t) in ('math.ceil', 'numpy.ceil') and len(t.a[1]) == 1:
        q = nocast(t.a[1][0])
        return q.k == 'bin' and q.a[0] == '/' and peq(q.a[1], n) and peq(q.a[2], s)
    if t.k == 'un' and t.a[0] == '-':
        q = t.a[1]
        return q.k == 'bin' and q.a[0] == '//' and peq(q.a[2], s) and peq(q.a[1], mk('un', '-', n))
    if t.k == 'bin' and t.a[0] == '//':
        return peq(t.a[2], s) and peq(t.a[1], mk('bin', '-', mk('bin', '+', n, s), const(1)))
    return False


def is_size(t, st, n, s):
    """t == min(st + s, n) - st for a tile starting at st."""
    t = nocast(t)
    end = mk('bin', '+', st, s)
    rest = mk('bin', '-', n, st)

    def minof(x):
        x = nocast(x)
        if callname(x) in MIN:
            a = x.a[1]
            if len(a) == 1 and a[0].k in ('tuple', 'list'):
                a = a[0].a
            return list(a) if len(a) == 2 and not x.a[2] else None
        if x.k == 'ite' and x.a[0].k == 'cmp' and x.a[0].a[0] in ('<', '<=', '>', '>='):
            op, p, q = x.a[0].a
            lo, hi = (p, q) if op[0] == '<' else (q, p)
            if (peq(lo, x.a[1]) and peq(hi, x.a[2])):
                return [x.a[1], x.a[2]]
            d1, d2 = pdiff(hi, lo), pdiff(x.a[2], x.a[1])
            if d1 == d2:
                return [x.a[1], x.a[2]]
        if x.k == 'ite' and x.a[0].k == 'not' and x.a[0].a[0].k == 'cmp':
            return minof(mk('ite', x.a[0].a[0], x.a[2], x.a[1]))
        return None
    for whole, a, b in ((t, s, rest), (None, None, None)):
        if whole is not None:
            m = minof(whole)
            if m and ((peq(m[0], a) and peq(m[1], b)) or (peq(m[1], a) and peq(m[0], b))):
                return True
    if t.k == 'bin' and t.a[0] == '-' and peq(t.a[2], st):
        m = minof(t.a[1])
        return bool(m) and ((peq(m[0], end) and peq(m[1], n)) or (peq(m[1], end) and peq(m[0], n)))
    return False


def inductive(E, t, e):
    """(first, limit, step, loop) of a tile start: a range element, a multiple of a counter, or a while-loop variable."""
    t = nocast(t)
    if t.k == 'elem' and callname(t.a[0]) in ('builtins.range', 'numpy.arange'):
        a = t.a[0].a[1]
        if len(a) == 3:
            return a[0], a[1], a[2], t.a[1], t
        if len(a) == 2:
            return a[0], a[1], const(1), t.a[1], t
        return const(0), a[0], const(1), t.a[1], t
    if t.k == 'lv' and t in E.steps:
        d = pdiff(E.steps[t], t)
        lim = [g for g in e.guards if g.k == 'cmp' and ((g.a[0] == '<' and g.a[1] is t) or (g.a[0] == '>' and g.a[2] is t))]
        if lim:
            s = [x for x in walk(E.steps[t]) if not any(y is t for y in walk(x)) and pdiff(mk('bin', '+', t, x), E.steps[t]) == {}]
            if s:
                return t.a[2], lim[0].a[2] if lim[0].a[1] is t else lim[0].a[1], s[0], t.a[0], t
    if t.k == 'bin' and t.a[0] == '*':
        for i, s in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            r = inductive(E, i, e) if i.k in ('elem', 'lv') else None
            if r and peq(r[0], const(0)) and peq(r[2], const(1)):
                return const(0), ('ceil', r[1]), s, r[3], r[4]
    return None


def axis(E, st, size, e):
    """(axis, images, loop, variable, problem) of one window dimension."""
    r = inductive(E, st, e)
    if r is None:
        return None, set(), None, None, f'tile start {show(st, 5)[:120]} is not of the form first + k * step over a loop'
    first, lim, step, loop, var = r
    if not peq(first, const(0)):
        return None, set(), loop, var, f'tiles start at {show(first, 3)[:60]}, not 0'
    if isinstance(lim, tuple):
        c = lim[1]
        cand = [x for x in walk(c) if dim(x)[0]]
        n = next((x for x in cand if is_ceildiv(c, x, step)), None)
        if n is None:
            return None, set(), loop, var, f'the number of tiles {show(c, 5)[:100]} is not the image size divided by the tile size, rounded up'
    else:
        n = lim
    ax, ims = dim(n)
    if ax is None:
        return None, set(), loop, var, f'tiles end at {show(n, 4)[:100]}, which is not an image dimension'
    if any(y is var for y in walk(step)):
        return None, set(), loop, var, 'the tile size changes from tile to tile'
    if not is_size(size, st, n, step):
        return ax, ims, loop, var, f'the tile size {show(size, 6)[:200]} is not the step limited to the image'
    return ax, ims, loop, var, None


def window_dims(w):
    """(col start, row start, width, height) of a window term."""
    n = callname(w)
    if n in WIN:
        v = [carg(w, i, k) for i, k in enumerate(('col_off', 'row_off', 'width', 'height'))]
        return v if all(x is not None for x in v) else None
    if n in ('rasterio.windows.Window.from_slices',):
        rs, cs = carg(w, 0, 'rows'), carg(w, 1, 'cols')
        def lim(x):
            if x is None:
                return None
            if x.k in ('tuple', 'list') and len(x.a) == 2:
                return x.a
            if x.k == 'slice' or callname(x) == 'builtins.slice':
                a = x.a if x.k == 'slice' else x.a[1]
                return a[:2] if len(a) >= 2 else None
        r, c = lim(rs), lim(cs)
        if r and c:
            return [c[0], r[0], mk('bin', '-', c[1], c[0]), mk('bin', '-', r[1], r[0])]
    return None


def windows(E, t):
    """Window terms in a task argument."""
    t = E.freeze(t)
    return [x for x, _ in leaves(t) if window_dims(x)]


def range1(t):
    """N if t is range(1, N + 1), else None."""
    if callname(t) in ('builtins.range', 'numpy.arange') and len(t.a[1]) in (2, 3) and peq(t.a[1][0], const(1)) and (len(t.a[1]) == 2 or peq(t.a[1][2], const(1))):
        return mk('bin', '-', t.a[1][1], const(1))
    return None


def counts(t):
    """Every alternative is the band count of an image (plus nothing)."""
    r = poly(t)
    out = []
    for x, _ in leaves(t.a[1] if t.k == 'bin' and t.a[0] == '-' and is_const(t.a[2]) else t):
        x = x.a[1] if x.k == 'bin' and x.a[0] == '+' and is_const(x.a[2]) and x.a[2].a[1] == 1 else x
        for y, _ in leaves(x):
            if not (y.k == 'attr' and y.a[1] == 'count') and not (y.k == 'sub' and is_const(y.a[1]) and y.a[1].a[1] == 'count') and not \
                    (callname(y) == 'builtins.len' and y.a[1][0].k == 'attr' and y.a[1][0].a[1] in ('indexes', 'dtypes')):
                return False
            out.append(y)
    return bool(out)


def bands(ix, e):
    """Problem with the band indexes of a task, or None: all bands at once, or one band per iteration of a loop over all bands."""
    if ix is None or ix is NONE:
        return None
    for x, _ in leaves(ix):
        if x is NONE or (x.k == 'attr' and x.a[1] == 'indexes'):
            continue
        r = None
        if x.k in ('list', 'tuple') and len(x.a) == 1:
            y = x.a[0]
            if y.k in ('starred', 'star') and y.k == 'starred' or (y.k == 'star' and False):
                r = range1(y.a[0])
            elif y.k == 'star' and len(y.a[1]) == 1 and not y.a[2]:
                r = range1(y.a[1][0][0]) if y.a[0].k == 'elem' and y.a[0].a[1] == y.a[1][0][1] else None
            else:
                x = y
        if callname(x) in ('builtins.list', 'builtins.tuple') and x.a[1]:
            r = range1(x.a[1][0])
        if r is None and range1(x) is not None:
            r = range1(x)
        if r is None and x.k == 'elem':
            if x.a[0].k == 'attr' and x.a[0].a[1] == 'indexes':
                continue
            r = range1(x.a[0])
            if r is not None and not any(l[1] == x.a[1] for l in e.loops):
                return 'one band is processed, but not in a loop over the bands'
        if r is None and x.k == 'bin' and x.a[0] == '+' and is_const(x.a[2]) and x.a[2].a[1] == 1 and x.a[1].k == 'elem' and callname(x.a[1].a[0]) == 'builtins.range':
            a = x.a[1].a[0].a[1]
            r = a[0] if len(a) == 1 else a[1] if peq(a[0], const(0)) and len(a) == 2 else None
        if r is None or not counts(r):
            return f'the band indexes {show(x, 6)[:120]} are not the indexes 1 .. number of bands'
    return None


def check(ctx):
    ctx.rule('cover', 'each tile window starts at a multiple of the tile size from 0 below the image size, and has the tile size limited to the image, along the matching axis', 3)
    ctx.rule('every-tile', 'the task for a tile is submitted unconditionally in the loops over the tiles, over all rows and columns, without other repetition', 3)
    ctx.rule('own-window', 'the pixels of a task are written (or, for statistics, read) with the window of the task, in all its accesses', 6)
    ctx.rule('grid-image', 'the tiles are laid over an image that the task writes or reads with them', 3)
    ctx.rule('all-bands', 'the tasks write all bands: all at once, or one in each iteration of a loop over all bands', 2)
    runs = [ortho(ctx.repo, k) for k in (KINDS if ctx.tier == 'thorough' else ('pinhole', 'rpc'))] + [sharpen(ctx.repo)]
    for r in runs:
        ctx.use(r)
        E = r.E
        subs = [e for e in r.events if e.kind == 'submit' and e.name == 'executor']
        ctx.ob('every-tile', f'{r.label}:tasks', bool(subs), 'no tile tasks found', r.label)
        for e in subs:
            key = f'{r.label}:{where(e)}:{len(e.loops)}'
            wins = [w for a in list(e.data['args']) + list(e.data['kwargs'].values()) if isinstance(a, T) for w in windows(E, a)]
            if not wins:
                ctx.ob('cover', key, False, 'the task has no tile window of a recognisable form', where(e))
                continue
            for w in dict.fromkeys(wins):
                c, ro, wd, ht = window_dims(w)
                ax, imx, lx, vx, px = axis(E, c, wd, e)
                ay, imy, ly, vy, py = axis(E, ro, ht, e)
                ok = px is None and py is None and ax == 'x' and ay == 'y'
                ctx.ob('cover', key, ok, px or py or f'columns run over the {"width" if ax == "x" else "height"} and rows over the {"height" if ay == "y" else "width"}', where(e))
                if px or py:
                    continue
                own = [l[1] for l in e.loops]
                need = {lx, ly}
                conds = [g for g in e.guards if any(y is vx or y is vy for y in walk(g)) and not (g.k == 'cmp' and (g.a[1] in (vx, vy) or g.a[2] in (vx, vy)) and 'lv' in (vx.k, vy.k))]
                extra = [l for l in e.loops if l[1] not in need and range1(l[0]) is None and not (l[0].k == 'attr' and l[0].a[1] == 'indexes') and not (callname(l[0]) == 'builtins.range' and counts(l[0].a[1][-1]))]
                ctx.ob('every-tile', key, need <= set(own) and lx != ly and not conds and not extra,
                       f'tiles are skipped or repeated: {[show(g, 4)[:100] for g in conds]} {[show(l[0], 3)[:80] for l in extra]}', where(e))
                i0, i1 = e.i, e.data.get('end', e.i)
                acc = [x for x in r.events if i0 < x.i < i1 and x.kind == 'call' and x.name in ('.write', '.write_mask', '.read', '.read_masks', '.dataset_mask')]
                dsets, rsets = set(), set()
                for x in acc:
                    ww = arg(x, {'.write': 2, '.read': 3, '.write_mask': 1}.get(x.name), 'window')
                    fr = E.freeze(ww) if ww is not None else None
                    if x.name in ('.write', '.write_mask'):
                        dsets.add(x.data['recv'])
                        ctx.ob('own-window', f'{key}:{where(x)}{x.name}', fr is w, f'{x.name} uses window {show(fr, 3)[:100] if fr is not None else "(none)"}, not the window of the task', where(x))
                    elif fr is not None:
                        rsets.add(x.data['recv'])
                        ctx.ob('own-window', f'{key}:{where(x)}{x.name}', fr is w, f'{x.name} uses another window than the task', where(x))
                target = dsets | rsets
                tl = {y for d in target for y, _ in leaves(d)}
                ctx.ob('grid-image', key, bool(tl) and imx <= tl and imy <= tl, f'the tiles are laid over {[show(y, 2) for y in imx | imy]}, but {[show(y, 2) for y in tl]} is accessed with them', where(e))
                wr = [x for x in acc if x.name == '.write']
                for x in wr:
                    ix = arg(x, 1, 'indexes')
                    p = bands(E.freeze(ix) if ix is not None else None, e)
                    ctx.ob('all-bands', f'{key}:{where(x)}', p is None, p or '', where(x))
