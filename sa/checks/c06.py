"""C06: operations do not modify their inputs and can be repeated."""
from .common import *

MUTABLE_SYMS_EXEMPT = {'opt_out_file'}


def is_data_sym(E, b):
    return b.k == 'sym' and not b.a[0].startswith('~')


def scalar_elem(t):
    """Element of a coefficient list / tuple: a number, which += replaces rather than changes."""
    return t.k == 'sub' and (is_const(t.a[1]) or t.a[1].k in ('elem', 'index'))


def muts(run):
    for e in run.events:
        if e.kind in ('mut', 'setattr') and e.data.get('target') is not None:
            yield e


def caller_data(ctx, rule, run):
    E = run.E
    bad = []
    for e in muts(run):
        t = e.data['target']
        if e.name.startswith('aug') and all(scalar_elem(x) for x, _ in leaves(t)):
            continue
        for b in bases(t):
            if not is_data_sym(E, b):
                continue
            ts = set(E.types_of(b) or ())
            if ts and ts <= {'str', 'int', 'float', 'bool', 'None', 'enumstr', 'PathLike', 'CRS', 'tuple', 'Affine'} and e.kind == 'mut':
                continue
            if ts & {'IOBase'} and e.name in ('write', 'seek', 'truncate', 'update'):
                continue
            bad.append((e, b))
    ctx.ob(rule, run.label, not bad, '; '.join(f'{e.name} at {e.loc} changes the caller\'s {show(b)}: {show(e.data["target"], 3)[:80]}' for e, b in bad)[:400],
           where(bad[0][0]) if bad else run.label)


def state(ctx, rule, run, st_init, obj, extra=()):
    """No mutation, during the operation, of what the object holds when the operation starts."""
    E = run.E
    now, E.st = E.st, st_init
    sh = shared_bases(E, obj, *extra)
    insts = {x for x in reachable(E, obj) if x.k == 'obj'}
    fields = {x: dict(E.h(x).data) for x in insts if E.h(x).kind == 'inst'}
    own = {y for x in insts | {z for f in fields.values() for z in f.values() if isinstance(z, T)} for y in walk(x) if y.k == 'sym'}
    own |= {y for x in sh for y in walk(x) if y.k == 'sym'}
    E.st = now

    def cache_fill(x, n, w):
        # an attribute that is None until its value, which depends on the object alone, is first needed
        return fields.get(x, {}).get(n) is NONE and all(y in own for x in alts(w) for y in walk(E.freeze(x)) if y.k == 'sym')
    bad = []
    for e in muts(run):
        t = e.data['target']
        if e.name.startswith('aug') and all(scalar_elem(x) for x, _ in leaves(t)):
            continue
        if e.kind == 'setattr' and t in fields and isinstance(e.data.get('value'), T) and cache_fill(t, e.name, e.data['value']):
            continue
        for b in bases(t):
            if b.k == 'obj' and b not in insts:
                continue
            if b in sh and b.k not in ('const', 'enum'):
                bad.append(e)
    for x, f in fields.items():
        h = E.st.heap.get(x.a[1]) if E.st is not None else None
        if h is None:
            continue
        for n, v in f.items():
            w = h.data.get(n)
            if isinstance(v, T) and w is not v and isinstance(w, T) and not cache_fill(x, n, w):
                ctx.ob(rule, f'{run.label}:{n}', False, f'attribute {n} of {h.meta.qual} is different after the operation: {show(w, 3)[:120]}', run.label)
    ctx.ob(rule, run.label, not bad, '; '.join(f'{e.name} at {e.loc} changes {show(e.data["target"], 3)[:100]}, which the object keeps' for e in bad)[:400],
           where(bad[0]) if bad else run.label)


def alts(t):
    if t.k == 'ite':
        return alts(t.a[1]) | alts(t.a[2])
    if t.k == 'after':
        return alts(t.a[2]) | alts(t.a[3])
    if t.k == 'lv':
        return alts(t.a[2])
    return {t}


def check(ctx):
    ctx.rule('caller-data', 'no store, in-place operation or in-place library call has a target that aliases an argument of the public operation', 40)
    ctx.rule('object-state', 'process() makes no store to data reachable from the object (DEM, camera, transforms, profiles) and leaves its attributes unchanged', 3)
    ctx.rule('camera-args', 'camera projection, remapping and reading do not store to the arrays they are given or to the camera', 12)
    ctx.rule('globals', 'no operation changes a module level table or a class attribute', 40)
    runs = all_runs(ctx, KINDS)
    for r in runs:
        caller_data(ctx, 'caller-data', r)
    for k in KINDS:
        r = ortho(ctx.repo, k)
        state(ctx, 'object-state', r, r.st_init, r.obj)
    r = sharpen(ctx.repo)
    state(ctx, 'object-state', r, r.st_init, r.obj)
    for k in KINDS:
        for r in scen.camera_ops(ctx.repo, k):
            ctx.use(r)
            caller_data(ctx, 'camera-args', r)
            if r.mutator:
                continue
            state(ctx, 'camera-args', r, r.st_init, r.obj)
            runs.append(r)
    for r in runs:
        E = r.E
        bad = []
        modobjs = module_objects(E)
        for e in muts(r):
            for b in bases(e.data['target']):
                if (b.k == 'obj' and b in modobjs) or b.k == 'cls' or (b.k == 'mod'):
                    bad.append(e)
        bad += [e for e in r.events if e.kind == 'nonlocal' and e.loc.func.count('.') <= 2]
        ctx.ob('globals', r.label, not bad, '; '.join(f'{e.name} at {e.loc} changes module or class level data' for e in bad)[:300], where(bad[0]) if bad else r.label)


def module_objects(E):
    out = getattr(E, '_modobjs', None)
    if out is None:
        out = set()
        for m in E.mods.values():
            for v in E.st.envs.get(m.fid, {}).values():
                if isinstance(v, T) and v.k == 'obj' and v.a[0] in ('list', 'dict', 'set', 'array'):
                    out |= {x for x in reachable(E, v) if x.k == 'obj'}
        for c in E.classes.values():
            for v in c.ns.values():
                if isinstance(v, T) and v.k == 'obj' and v.a[0] in ('list', 'dict', 'set', 'array'):
                    out |= {x for x in reachable(E, v) if x.k == 'obj'}
        E._modobjs = out
    return out
