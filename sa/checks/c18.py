"""C18: band indexes outside the image are refused, all others accepted (folding of the guards of every read and refusal at the boundaries)."""
from .common import *
from .. import scen
from ..scen import Q

D = ('DatasetReader',)
CTX = dict(src_file=D, dem_file=D, pan_file=D, ms_file=D, out_file=('OpenFile',))
READS = ('.read', '.dataset_mask', '.read_masks', '.sample', '.statistics')


def sources(E, t, depth=6):
    """Symbols of the files a dataset term was opened from."""
    out = set(syms(t))
    for x in walk(t):
        if x.k == 'obj' and depth and E.st is not None and x.a[1] in E.st.heap:
            m = E.st.heap[x.a[1]].meta
            for y in m if isinstance(m, tuple) else ():
                if isinstance(y, T):
                    out |= sources(E, y, depth - 1)
    return out


def boundary(E, idx, ds, n, b, seq, e=None):
    """Rewriting for: the image `ds` has n bands and the index is b (the sequence (b,), or (1, b))."""
    loops = {l[1] for l in e.loops} if e is not None else set()
    val = const(b) if not seq else tup(const(b)) if seq == 1 else tup(const(1), const(b))

    def f(t):
        if t.k == 'sym' and t.a[0] == idx:
            return val
        if seq and t.k == 'elem' and loops & {t.a[1]} and idx in syms(t.a[0]):
            return const(b)
        if t.k == 'attr' and t.a[1] in ('count', 'indexes') and ds in sources(E, t.a[0]):
            return const(n) if t.a[1] == 'count' else tup(*[const(i) for i in range(1, n + 1)])
        return None
    return f


def uses(e, idx):
    ts = list(e.data.get('args', ())) + list(dict(e.data.get('kwargs', {})).values())
    return any(isinstance(t, T) and idx in syms(t) for t in ts)


def definite(r, e, f):
    """Refusal r is definitely raised before e is reached, under f."""
    own = [g for g in r.guards if g not in e.guards]
    return r.i < e.i and all(simp(g, f) is TRUE for g in own)


def first_refusals(E, raises, named, idx, ds, seq):
    """Errors that can be the one raised for an index out of range."""
    fn = lambda e, b: boundary(E, idx, ds, 3, b, seq, e)
    return [e for e in named if any(not impossible(e.guards, fn(e, b)) and not any(definite(r, e, fn(r, b)) for r in raises if r is not e) for b in (-1, 0, 4))]


def decide(ctx, run, events, label, idx, ds, seq, targets, cls, frozen=None):
    E = run.E
    raises = [e for e in events if e.kind == 'raise' and e.name.startswith(cls)]
    named = [e for e in raises if isinstance(e.data.get('val'), T) and idx in deep_syms(E, e.data['val'])]
    refusals = first_refusals(E, raises, named, idx, ds, seq)
    for n in (1, 3):
        for s in ((0,) if not seq else (1, 2)):
            for b in (-2, -1, 0, n + 1, n + 2):
                fn = lambda e: boundary(E, idx, ds, n, b, s, e)
                for e in targets:
                    ok = impossible(e.guards, fn(e)) or any(definite(r, e, fn(r)) for r in raises)
                    ctx.ob('refused', f'{label} {idx}={b} of {n} {e.name}', ok, f'{e.name} is reached with {idx} = {b} of an image with {n} band(s)', where(e))
                hit = [r for r in named if not impossible(r.guards, fn(r))]
                ctx.ob('named', f'{label} {idx}={b} of {n}', bool(hit), f'no {cls} error that names {idx} is raised for {b} of {n} band(s)')
            for b in range(1, n + 1):
                for e in refusals:
                    f = boundary(E, idx, ds, n, b, s, e)
                    ctx.ob('accepted', f'{label} {idx} {where(e)}', impossible(e.guards, f), f'{idx} = {b} is refused for an image with {n} band(s)', where(e))


def deep_syms(E, t, depth=3):
    out = set(syms(t))
    for x in walk(t):
        if x.k == 'obj' and depth and E.st is not None and x.a[1] in E.st.heap:
            out |= deep_syms(E, E.freeze(x), 0)
    return out


def check(ctx):
    ctx.rule('refused', 'no read that uses the band index, and no output that is opened, is reachable when the index is below 1 or above the number of bands', 20)
    ctx.rule('named', 'an OrthorityError (click error in commands) that mentions the index is raised then', 6)
    ctx.rule('accepted', 'no error that mentions the index can be raised for an index from 1 to the number of bands', 6)
    ctx.rule('used', 'the reads use the index given by the caller', 3)
    for k in ('pinhole', 'rpc') if ctx.tier == 'quick' else KINDS:
        r = scen.ortho(ctx.repo, k, process=False, **CTX)
        ctx.use(r.init)
        rd = [e for e in r.init.events if e.kind == 'call' and e.name in READS and uses(e, 'dem_band')]
        ctx.ob('used', f'Ortho({k}) dem_band', bool(rd), 'no read from the DEM uses the given band index')
        decide(ctx, r, r.init.events, f'Ortho({k})', 'dem_band', 'dem_file', 0, rd, Q + 'errors.')
    r = ctx.use(scen.sharpen(ctx.repo, **CTX))
    outs = [e for e, _, _ in write_effects(r)]
    for idx, ds, seq in (('pan_index', 'pan_file', 0), ('ms_indexes', 'ms_file', 1)):
        rd = [e for e in r.events if e.kind == 'call' and e.name in READS and uses(e, idx)]
        ctx.ob('used', f'PanSharpen.process {idx}', bool(rd), f'no read uses {idx}')
        decide(ctx, r, r.events, 'PanSharpen.process', idx, ds, seq, rd + outs, Q + 'errors.')
    for c, idx, ds, seq in [(c, 'opt_dem_band', 'opt_dem_file', 0) for c in ('frame', 'exif', 'rpc')] + [('sharpen', 'opt_pan_index', 'opt_pan_file', 0), ('sharpen', 'opt_ms_indexes', 'opt_ms_file', 1)]:
        r = [x for x in scen.cli_all(ctx.repo) if x.label == 'oty ' + c][0]
        ctx.use(r)
        E = r.E
        named = [e for e in r.events if e.kind == 'raise' and isinstance(e.data.get('val'), T) and idx in deep_syms(E, e.data['val'])]
        named = first_refusals(E, [e for e in r.events if e.kind == 'raise'], named, idx, ds, seq)
        for n in (1, 3):
            for b in range(1, n + 1):
                for e in named:
                    f = boundary(E, idx, ds, n, b, seq, e)
                    ctx.ob('accepted', f'{r.label} {idx}', impossible(e.guards, f), f'{idx} = {b} is refused for an image with {n} band(s)', where(e))
