"""C09: what a writer gives to the file library, read back by the reader, is what was written (equality of value graphs)."""
from .common import *
from .. import scen
from ..scen import Q
from .c12 import D, op, equal
from .c14 import COEF, member, untuple, subsets

DUMP = ('yaml.safe_dump', 'yaml.dump', 'yaml.safe_dump_all', 'yaml.dump_all', 'json.dump', 'json.dumps')
LOAD = ('yaml.safe_load', 'yaml.load', 'json.load', 'json.loads', 'yaml.full_load')
LISTS = ('im', 'focal2', 'sensor', 'xyz', 'opk', 'ji')
TYPES = dict(wfile=('str',), pfile=('str',), crsP=('CRS',))


def types(loaded=False):
    """Types of the values of parameters, as given by the readers, or as they come out of a file."""
    t = dict(TYPES)
    for p in ('A', 'B', 'C', 'D'):
        for n in LISTS:
            t[n + p] = ('list',) if loaded else ('tuple',)
        t['rpc' + p], t['info' + p], t['id' + p] = ('dict',), ('str',), ('str',)
        for n in ['focal', 'cx', 'cy'] + COEF['opencv']:
            t[n + p] = ('float',)
    return t


def thaw(E, t):
    """A value as it comes out of a JSON / YAML file: new dictionaries and lists."""
    if t.k == 'dict':
        return E.alloc('dict', [(e[0], thaw(E, e[1])) if isinstance(e, tuple) else e for e in t.a])
    if whole(t) is not None:
        return whole(t)
    if t.k in ('list', 'tuple'):
        return E.alloc('list', [thaw(E, x) for x in t.a])
    if t.k == 'call' and callname(t) in ('builtins.list', 'builtins.tuple') and len(t.a[1]) == 1 and t.a[1][0].k == 'sym':
        return t.a[1][0]
    if t.k == 'enum':
        return sym('unrepresentable')
    return t


def flat(t):
    """Sequences without their kind."""
    if t.k == 'call' and callname(t) in ('builtins.list', 'builtins.tuple') and len(t.a[1]) == 1:
        return t.a[1][0] if t.a[1][0].k in ('sym', 'tuple') else None
    if whole(t) is not None:
        return whole(t)
    if t.k == 'list':
        return mk('tuple', *t.a)
    return None


def whole(t):
    """The sequence all items of which, in order, are the items of `t`."""
    if t.k in ('list', 'tuple') and len(t.a) == 1:
        x = t.a[0]
        if x.k == 'starred':
            return x.a[0]
        if x.k == 'star' and x.a[0].k == 'elem' and not x.a[2]:
            return x.a[0].a[0]
    return None


def dumped(run_events, E):
    return [(e, E.freeze(e.data['args'][0] if e.data['args'] else next(iter(e.data['kwargs'].values()), NONE))) for e in run_events if e.kind == 'call' and e.name in DUMP]


def find(t, p):
    return [x for x in p(t)]


def diff(a, b, path=''):
    """Paths at which two nested dictionaries differ."""
    if a.k == 'dict' and b.k == 'dict' and all(isinstance(e, tuple) for e in a.a + b.a):
        x, y = dict(a.a), dict(b.a)
        for k in x:
            if k not in y:
                yield f'{path}{show(k)} is not there'
            else:
                yield from diff(x[k], y[k], path + show(k) + ' ')
        for k in y:
            if k not in x:
                yield f'{path}{show(k)} was not written'
        return
    if a.k in ('tuple', 'list') and b.k in ('tuple', 'list'):
        if len(a.a) != len(b.a):
            yield f'{path}has {len(b.a)} items instead of {len(a.a)}'
            return
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            yield from diff(x, y, path + f'[{i}] ')
        return
    if not same(a, b):
        yield f'{path}is {show(b)[:70]} instead of {show(a)[:50]}'


def roundtrip(ctx, what, build, write, read, expect=None):
    E = scen.new(ctx.repo, **types())
    d = build(E)
    orig = simp(simp(E.freeze(d), flat), flat)
    _, _, ev = write(E, d)
    ctx.seen(E, what)
    ds = dumped(ev, E)
    if E.st is None or len(ds) != 1:
        ctx.ob('roundtrip', what, False, 'it cannot be written' if E.st is None else f'{len(ds)} values are written to the file')
        return
    e, t = ds[0]
    ctx.ob('written', what, not e.loops and not guarded(e), 'it is not always written', where(e))
    maybe = [x for x in subt(t) if x.k == 'dict' and any(not isinstance(y, tuple) or any(z.k == 'absent' for v, _ in leaves(y[1]) for z in (v,)) for y in x.a)]
    ctx.ob('written', what + ' (all fields)', not maybe, 'not every field is always written', where(e))
    if maybe:
        return
    bad = [x for x in subt(t) if x.k == 'enum']
    ctx.ob('written', what + ' (file types)', not bad, f'{show(bad[0]) if bad else ""} cannot be written to the file', where(e))
    E.symtypes.update(types(True))
    E.ext_values.update({n: (lambda E, a, kw, nd: thaw(E, t)) for n in LOAD})
    v = read(E)
    if v is None:
        ctx.ob('roundtrip', what, False, 'it cannot be read back')
        return
    got = simp(simp(E.freeze(v), flat), flat)
    msgs = list(diff(orig, got))
    ctx.ob('roundtrip', what, not msgs, 'after reading back, ' + '; '.join(msgs[:2]))


def guarded(e):
    return [g for g in e.guards if not ({'wfile', 'overwrite'} & syms(g)) and g.k != 'const' and not crs_guard(g)]


def crs_guard(g):
    return bool({'crsP', 'crs1'} & syms(g)) or not syms(g)


def subt(t):
    from .c14 import subterms
    return subterms(t)


def rd(name):
    def f(E):
        v, _, _ = E.run(E.modvar(Q + 'param_io', name), [S('pfile')])
        return v
    return f


def rd_ext(E):
    r, _, _ = E.run(E.modvar(Q + 'param_io', 'OtyReader'), [S('pfile')])
    if r is None:
        return None
    v, _, _ = E.run(E.getattr_(r, 'read_ext_param'), [])
    return v


def wr(name, *more):
    return lambda E, d: E.run(E.modvar(Q + 'param_io', name), [S('wfile'), d, *more], dict(overwrite=S('overwrite')))


def int_param(E, k, p, cs, pair, opt, how='member'):
    d = dict(cam_type=member(E, 'CameraType', k) if how == 'member' else const(k), im_size=S('im' + p), focal_len=S(('focal2' if pair else 'focal') + p))
    if opt:
        d.update(sensor_size=S('sensor' + p), cx=S('cx' + p), cy=S('cy' + p))
    d.update({c: S(c + p) for c in cs})
    return D(E, **d)


def gcp(E, p):
    return D(E, ji=S('ji' + p), xyz=S('xyz' + p), id=S('id' + p), info=S('info' + p))


def check(ctx):
    ctx.rule('roundtrip', 'the value read back is the value written', 12)
    ctx.rule('written', 'the whole value is written, whatever it is', 12)
    ctx.rule('export', 'exported files give the cameras of the factory that exported them', 4)
    for k in COEF:
        for cs in subsets(COEF[k]):
            for pair, opt in ((True, True), (False, False)) if cs == COEF[k] else ((False, True),):
                roundtrip(ctx, f'interior parameters, {k} with {len(cs)} coefficients, {"two" if pair else "one"} focal length(s), {"with" if opt else "without"} optional fields',
                          lambda E: D(E, c1=int_param(E, k, 'A', cs, pair, opt), c2=int_param(E, 'brown', 'B', ['k1'], False, True)), wr('write_int_param'), rd('read_oty_int_param'))
    for n in ('camera', 'name', 'v2 x', 'type'):
        roundtrip(ctx, f'interior parameters with camera ID {n!r}', lambda E: D(E, **{n: int_param(E, 'pinhole', 'A', [], False, True)}),
                  wr('write_int_param'), rd('read_oty_int_param'))
    for cam in ('c1', None):
        roundtrip(ctx, f'exterior parameters, {"camera ID" if cam else "no camera ID"}',
                  lambda E: D(E, a__tif=D(E, xyz=S('xyzA'), opk=S('opkA'), camera=const(cam)), **{'Dir 1/B.x.TIF': D(E, xyz=S('xyzB'), opk=S('opkB'), camera=const(cam and 'c2'))},
                              c=D(E, xyz=S('xyzC'), opk=S('opkC'), camera=const(cam))), wr('write_ext_param', S('crsP')), rd_ext)
    roundtrip(ctx, 'RPC parameters', lambda E: D(E, a__tif=D(E, cam_type=member(E, 'CameraType', 'rpc'), im_size=S('imA'), rpc=S('rpcA')),
                                                 **{'Dir 1/B.x.TIF': D(E, cam_type=member(E, 'CameraType', 'rpc'), im_size=S('imB'), rpc=S('rpcB'))}), wr('write_rpc_param'), rd('read_oty_rpc_param'))
    roundtrip(ctx, 'ground control points', lambda E: D(E, a__tif=E.alloc('list', [gcp(E, 'A'), gcp(E, 'B')]), **{'Dir 1/B.x.TIF': E.alloc('list', [gcp(E, 'C')])}, c=E.alloc('list', [gcp(E, 'D')])),
              wr('write_gcps'), rd('read_oty_gcps'))
    crs(ctx)
    exports(ctx)


def crs(ctx):
    """The CRS that is written is the CRS that is read."""
    E = scen.new(ctx.repo, **types())
    d = D(E, a__tif=D(E, xyz=S('xyzA'), opk=S('opkA'), camera=const('c1')))
    _, _, ev = wr('write_ext_param', S('crsP'))(E, d)
    ds = dumped(ev, E)
    if len(ds) != 1 or E.st is None:
        return
    t = ds[0][1]
    E.symtypes.update(types(True))
    E.ext_values.update({n: (lambda E, a, kw, nd: thaw(E, t)) for n in LOAD})
    r, _, _ = E.run(E.modvar(Q + 'param_io', 'OtyReader'), [S('pfile')])
    v = None
    if r is not None:
        v, _, _ = E.run(ext('builtins.getattr'), [r, const('crs')])
    v = None if v is None else E.freeze(v)
    ok = v is not None and 'crsP' in syms(v) and all('crsP' in syms(x) for x, _ in leaves(v))
    ctx.ob('roundtrip', 'CRS of the exterior parameters', ok, f'it is read as {show(v)[:80] if v is not None else None}')


def exports(ctx):
    """FrameCameras / RpcCameras: write_param, then construction from the files."""
    for how in ('member', 'name'):
        for cam in (True, False):
            what = f'FrameCameras.write_param, camera types by {how}, {"with" if cam else "without"} camera ID'
            E = scen.new(ctx.repo, **types(), out_dir=('str',), src_file=('str',), z_any=('float',))
            ip = D(E, c1=int_param(E, 'brown', 'A', COEF['brown'], True, True, how))
            ep = D(E, a__tif=D(E, xyz=S('xyzA'), opk=S('opkA'), **({'camera': const('c1')} if cam else {})))
            f, _, _ = E.run(E.modvar(Q + 'factory', 'FrameCameras'), [ip, ep], dict(io_kwargs=D(E, crs=S('crsP'))))
            if f is None:
                ctx.ob('export', what, False, 'no factory is created')
                continue
            c, _, _ = E.run(E.getattr_(f, 'get'), [const('a.tif')])
            want = op(E, c, 'world_to_pixel') if c is not None else None
            _, _, ev = E.run(E.getattr_(f, 'write_param'), [S('out_dir')], {})
            ctx.seen(E, what)
            ds = dumped(ev, E)
            if E.st is None or len(ds) != 2 or want is None:
                ctx.ob('export', what, False, 'the parameters are not written')
                continue
            E.symtypes.update(types(True))
            ys = [t for e, t in ds if e.name.startswith('yaml')]
            js = [t for e, t in ds if e.name.startswith('json')]
            if not ys or not js:
                ctx.ob('export', what, False, 'the parameters are not written in the documented formats')
                continue
            for n in LOAD:
                E.ext_values[n] = (lambda E, a, kw, nd, t=(ys if n.startswith('yaml') else js)[0]: thaw(E, t))
            g, _, _ = E.run(E.modvar(Q + 'factory', 'FrameCameras'), [const('int_param.yaml'), const('ext_param.geojson')])
            c = E.run(E.getattr_(g, 'get'), [const('a.tif')])[0] if g is not None else None
            if c is None:
                ctx.ob('export', what, False, 'no camera can be made from the exported files')
                continue
            got = op(E, c, 'world_to_pixel')
            ok, msg = equal(simp(want, untuple), simp(got, untuple), (None,)) if got is not None else (False, 'nothing')
            ctx.ob('export', what, ok, 'the projection with the exported files is ' + msg)
    for refined in (False, True):
        what = f'RpcCameras.write_param, {"" if refined else "not "}refined'
        E = scen.new(ctx.repo, **types(), out_dir=('str',), gA=('list',))
        f, _, _ = E.run(E.modvar(Q + 'factory', 'RpcCameras'), [D(E, a__tif=D(E, cam_type=member(E, 'CameraType', 'rpc'), im_size=S('imA'), rpc=S('rpcA')))])
        if f is None:
            ctx.ob('export', what, False, 'no factory is created')
            continue
        gs = E.alloc('list', [gcp(E, 'A'), gcp(E, 'B')])
        if refined:
            E.run(E.getattr_(f, 'refine'), [D(E, a__tif=gs)])
        c, _, _ = E.run(E.getattr_(f, 'get'), [const('a.tif')])
        want = op(E, c, 'world_to_pixel') if c is not None else None
        _, _, ev = E.run(E.getattr_(f, 'write_param'), [S('out_dir')], {})
        ctx.seen(E, what)
        ds = dumped(ev, E)
        ys = [t for e, t in ds if e.name.startswith('yaml')]
        js = [t for e, t in ds if e.name.startswith('json')]
        if E.st is None or len(ys) != 1 or len(js) != int(refined) or want is None:
            ctx.ob('export', what, False, 'the parameters are not written' if not refined else 'the refined parameters and the control points are not written')
            continue
        E.symtypes.update(types(True))
        for n in LOAD:
            E.ext_values[n] = (lambda E, a, kw, nd, t=(ys if n.startswith('yaml') else js or ys)[0]: thaw(E, t))
        g, _, _ = E.run(E.modvar(Q + 'factory', 'RpcCameras'), [const('rpc_param.yaml')])
        c = E.run(E.getattr_(g, 'get'), [const('a.tif')])[0] if g is not None else None
        got = op(E, c, 'world_to_pixel') if c is not None else None
        ok, msg = equal(simp(want, untuple), simp(got, untuple), (None,)) if got is not None else (False, 'nothing')
        ctx.ob('export', what, ok, 'the projection with the exported file is ' + msg)
