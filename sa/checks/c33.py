"""C33: pan-sharpening is the Gram-Schmidt substitution (rational normal form of one output pixel, for one to three multispectral bands)."""
from .geo import *
from .c19 import PanGeo, vrts, source
from ..rows import POOL, WORK, Rat, TooBig, rat, atom
from .small import Small, Nd, Unknown, nd, total, mark
from functools import lru_cache


@lru_cache(None)
def run(repo, weights, bands, neg):
    g = PanGeo.__new__(PanGeo)
    g.mode, g.equal = 'both', False
    g.E = E = scen.new(repo, pan_file=('DatasetReader',), ms_file=('DatasetReader',), out_file=('str',))
    E.out_dtype, E.dtypes['~'] = 'float64', None
    g.o, _, g.ev0 = E.run(E.modvar(Q + 'pan_sharp', 'PanSharpen'), [S('pan_file'), S('ms_file')])
    g.ev1 = []
    sm = small(E, leaf, bands, neg)

    def shape(t):
        try:
            return sm.shape(t)
        except Unknown:
            return None
    E.shape_hook = shape
    if g.o is not None:
        _, _, g.ev1 = E.run(E.getattr_(g.o, 'process'), [S('out_file')], dict(
            pan_index=const(1), ms_indexes=tup(*[const(i + 1) for i in range(bands)]), interp=S('interp'), progress=S('prog_list'),
            weights=tup(*[S(f'w{i}') for i in range(bands)]) if weights == 'given' else NONE, **{**OUT_KW, 'dtype': const('float64')}))
    g.events = list(g.ev0) + list(g.ev1)
    g.affs, g.memo, g.errs = {}, {}, []
    return g


def small(E, leaf, bands, neg):
    sm = Small(E, leaf)
    if neg:
        sm.negative = lambda key: key == ('s', 'w0') or key[0] == 'lstsq' and key[2][0] == 0 and key[3][0] in (bands, bands + 1 - neg)
    return sm


def indexes(t):
    """Band indexes of a read."""
    kw = dict(t.a[2])
    i = kw.get('indexes', t.a[1][0] if t.a[1] else None)
    if i is None:
        return None
    if is_const(i):
        return i.a[1]
    if i.k in ('tuple', 'list') and all(is_const(x) for x in i.a):
        return tuple(x.a[1] for x in i.a)
    return None


def leaf(t, files=None):
    """A pixel of an image that is read."""
    if t.k == 'call' and callname(t) == '.read':
        i = indexes(t)
        if i is None:
            return None
        f = 'file' if files is None else source(files, t.a[0].a[0])
        if f is None:
            return None
        px = lambda j: atom(('s', f'{f} band {j}'))
        return Nd((len(i), 1, 1), [px(j) for j in i]) if isinstance(i, tuple) else Nd((1, 1), [px(i)])
    return None


def check(ctx):
    ctx.rule('substituted', 'each output pixel is the multispectral pixel plus the covariance of its band with the simulated panchromatic band, divided by the variance '
             'of that, times the difference of the normalised panchromatic pixel and the simulated one', 2)
    ctx.rule('weights', 'weights that are not given are the least squares solution for the panchromatic band', 1)
    for weights, bands, neg in (('given', 1, 0), ('given', 2, 0), ('given', 3, 0), ('given', 3, 1), ('estimated', 2, 0), ('estimated', 3, 0), ('estimated', 3, 1), ('estimated', 3, 2)):
        lab = f'PanSharpen.process, {bands} band(s), weights {weights}{", the first one negative" * (neg > 0)}{", then the second one" * (neg > 1)}'
        g = run(ctx.repo, weights, bands, neg)
        E = g.E
        ctx.seen(E, lab)
        try:
            files, _ = vrts(ctx, g, '')
        except Exception:
            files = {}
        sm = small(E, lambda t: leaf(t, files), bands, neg)
        writes = [e for e in g.ev1 if e.kind == 'call' and e.name == '.write' and e.data.get('args')]
        for e in writes or [None]:
            if e is None:
                ctx.ob('substituted', lab, False, 'nothing is written')
                continue
            try:
                why = written(g, sm, e, weights, bands, neg)
            except (Unknown, TooBig) as ex:
                why = f'the value written is not resolved: {ex}'[:200]
            ctx.ob('substituted', lab, not why, why or '', where(e))
        if weights == 'estimated':
            least_squares(ctx, g, sm, bands, neg, lab)


def accumulated(g):
    seen, out = set(), []
    for e in g.ev1:
        if e.kind == 'call' and e.name == '.write' and e.data.get('args'):
            for t in walk(g.E.freeze(e.data['args'][0])):
                if t.k == 'after' and t not in seen:
                    seen.add(t)
                    out.append(t)
    return out


def written(g, sm, e, weights, bands, neg):
    out = nd(sm.val(g.E.freeze(e.data['args'][0])))
    if out.shape != (bands, 1, 1):
        return f'an array of shape {out.shape} is written'
    st = {}
    for t in accumulated(g):
        try:
            v = nd(sm.val(t))
        except Unknown:
            continue
        st.setdefault(v.shape, v)
    if (bands + 1,) not in st or (bands + 1,) * 2 not in st:
        return 'the means and deviation products are not found'
    mean, P = st[(bands + 1,)], st[(bands + 1,) * 2]
    if weights == 'given':
        w = [rat(0)] * neg + [atom(('s', f'w{i}')) for i in range(neg, bands)]
    else:
        ls = sorted({a for v in out.v for a in deep(sm, v) if POOL.keys[a][0] == 'lstsq'}, key=lambda a: POOL.keys[a][2])
        if neg == 2:
            # those of the first fit, or of the second one
            k = {(POOL.keys[a][3][0], POOL.keys[a][2][0]) for a in ls}
            ok = k == {(bands, i) for i in range(1, bands)} or k == {(bands - 1, i) for i in range(1, bands - 1)}
        else:
            ok = len(ls) == bands - neg and POOL.keys[ls[0]][3][0] == bands - neg
        if len({POOL.keys[a][1] for a in ls}) != 1 or not ok:
            return 'the estimated weights are not found' + ', or not those of the bands with positive weights' * neg
        w = [rat(0)] * (bands - len(ls)) + [Rat({(a,): 1}) for a in ls]
    s = total(w)
    w = [sm.div(x, s) for x in w]
    ns = [a for v in out.v for a in deep(sm, v) if POOL.keys[a][0] == 'after' and len(POOL.keys[a]) == 2]
    alts = [rat(1)] + [Rat({(a,): 1}) - 1 for a in sorted(set(ns))] + [Rat({(a,): 1}) for a in sorted(set(ns))]
    B = range(bands)
    for f in alts:
        WORK[0] = 0
        # covariances, or products, as the factor cancels
        C = lambda i, j: P.at((i, j)) / f
        var = total(w[i] * w[j] * C(i + 1, j + 1) for i in B for j in B)
        sim_mean = total(w[i] * mean.at((i + 1,)) for i in B)
        px = [atom(('s', f'ms band {i + 1}')) for i in B]
        sim = total(w[i] * px[i] for i in B)
        pan = atom(('s', 'pan band 1'))
        for gain in (lambda: sm.div(sm.sqrt(var), sm.sqrt(C(0, 0))), lambda: sm.sqrt(var / C(0, 0))):
            gn = gain()
            norm = gn * pan + (sim_mean - gn * mean.at((0,)))
            want = []
            for k in B:
                phi = sm.div(total(w[j] * C(k + 1, j + 1) for j in B), var)
                want.append(px[k] + phi * (norm - sim))
            if [mark(x) for x in out.v] == [mark(x) for x in want] and all(a == b for a, b in zip(out.v, want)):
                return ''
    return f'the value written is not that of Gram-Schmidt substitution'


def deep(sm, v):
    """Irreducible scalars of a value, including those of named quotients and roots."""
    out, todo = set(), list(v.atoms())
    named = {next(iter(a.atoms())): r for _, r, a, _ in sm.named}
    while todo:
        a = todo.pop()
        if a not in out:
            out.add(a)
            if a in named:
                todo.extend(named[a].atoms())
    return out


def least_squares(ctx, g, sm, bands, neg, lab):
    n = 0
    for e in g.ev1:
        if e.kind == 'call' and e.name == 'numpy.linalg.lstsq' and len(e.data['args']) >= 2:
            try:
                A, b = (nd(sm.val(g.E.freeze(x))) for x in e.data['args'][:2])
            except Unknown:
                continue
            P = None
            for t in accumulated(g):
                try:
                    v = nd(sm.val(t))
                except Unknown:
                    continue
                if v.shape == (bands + 1,) * 2:
                    P = v
            n += 1
            m = len(b.v)
            o = bands - m + 1
            B = range(m)
            ok = P is not None and A.shape == (m, m) and m in (bands, bands - (neg > 0))
            if ok:
                f = P.at((0, o)) / b.v[0]
                ok = all(P.at((0, i + o)) == b.v[i] * f for i in B) and all(P.at((i + o, j + o)) == A.at((i, j)) * f for i in B for j in B)
            ctx.ob('weights', f'{lab}: {m} weights', ok, 'the weights are not fitted with the covariances of the multispectral bands and those with the panchromatic band', where(e))
    if n != 1 + (neg > 0) and not (n and not neg):
        ctx.ob('weights', lab, False, 'no least squares solution with covariances is found')
