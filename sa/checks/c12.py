"""C12: results after a change of parameters equal those of an object made with the new parameters (equality of value graphs)."""
from .common import *
from .. import scen
from ..scen import Q

OPS = ('world_to_pixel', 'pixel_to_world_z', 'world_boundary', 'pixel_boundary', 'read', 'remap')
TYPES = dict(src_file=('DatasetReader',), xyz0=('tuple',), opk0=('tuple',), alpha0=('float',), alpha1=('float',), z_any=('float',),
             gA=('list',), gB=('list',), imA=('tuple',), imB=('tuple',), interp=('enumstr',), clip=('bool',), num_pts=('int',))


def op(E, cam, name):
    """Value of a camera operation, frozen; None if it has no normal exit."""
    a, k = scen.CAM_OPS[name]
    m = E.getattr_(cam, name)
    fv = scen.fn_of(E, m)
    ps = fv.params() if fv is not None else None
    kw = {n: v for n, v in k.items() if ps is None or n in ps}
    if cam.k == 'ite':
        kw.pop('distort', None)
    v, _, ev = E.run(m, list(a), kw)
    if v is None:
        return None
    lib = [mk('tuple', const(e.name), *e.data['args'], *[x for _, x in sorted(e.data['kwargs'].items())]) for e in ev
           if e.kind == 'call' and e.name.startswith('cv2.')]
    return mk('tuple', E.freeze(v), *[E.freeze(x) for x in lib])


def coeffs(t):
    """Vectors of distortion coefficients without trailing zeros, and without truncation of trailing zeros (which is not judged here)."""
    if t.k == 'sub' and t.a[1].k == 'slice' and t.a[0].k == 'call' and callname(t.a[0]) == 'numpy.array':
        t = t.a[0]
    if t.k == 'call' and callname(t) == 'numpy.array' and len(t.a[1]) == 1 and t.a[1][0].k == 'list' and 'k1' in syms(t):
        c = list(t.a[1][0].a)
        while c and pyval(c[-1]) in ((True, 0.0), (True, 0)):
            c.pop()
        return mk('coeffs', *c)
    return None


def position(E, cam):
    v, _, _ = E.run(ext('builtins.getattr'), [cam, const('pos')])
    return None if v is None else E.freeze(v)


def warm(E, cam, ops=OPS):
    for n in ops:
        op(E, cam, n)


def cam_args(kind, init, **kw):
    return dict(init, **kw)


def change(repo, kind, first, then, second, name):
    """(value after the change, value of a new camera) of one operation."""
    out = []
    for changed in (True, False):
        E = scen.new(repo, **TYPES)
        c0, _, _ = scen.camera(E, kind, init=first)
        c1 = c0
        if not changed:
            c1, _, _ = scen.camera(E, kind, init=second)
        if c0 is None or c1 is None:
            return None
        warm(E, c0)
        if changed:
            then(E, c0)
            if E.st is None:
                return None
        out.append(position(E, c1) if name == 'pos' else op(E, c1, name))
    return E, out


def setter(name, v):
    return lambda E, c: E.run(ext('builtins.setattr'), [c, const(name), v])


def update(E, c):
    E.run(E.getattr_(c, 'update'), [S('xyz3'), S('opk3')])


def equal(a, b, cases):
    """The two values are equal in every case; otherwise the difference."""
    if a is None or b is None:
        return a is b, 'one of them has no normal exit'
    for f in cases:
        g = combine(f, coeffs, maps) if f else combine(coeffs, maps)
        x, y = (simp(t, g) for t in (a, b))
        if not same(x, y):
            p, q = differ(x, y)
            return False, f'{show(p, 3)[:120]} instead of {show(q, 3)[:120]}'
    return True, ''


def eqcase(p, q, eq):
    """Rewriting for the case that the two symbols have the same / a different value."""
    def f(t):
        if eq:
            if t.k == 'cmp' and t.a[0] in ('==', '!=') and set(t.a[1:]) == {p, q}:
                return const(t.a[0] == '==')
            return q if t is p else None
        if t.k == 'cmp' and t.a[0] in ('==', '!=') and set(t.a[1:]) == {p, q}:
            return const(t.a[0] == '!=')
        return None
    return f


def maps(t):
    """Undistortion maps are a non-empty tuple."""
    if t.k in ('truth', 'cmp'):
        x = t.a[0] if t.k == 'truth' else t.a[1] if t.a[2] is NONE else t.a[2] if t.a[1] is NONE else None
        if x is not None and x.k == 'call' and (callname(x) or '').endswith('.initUndistortRectifyMap'):
            return const(t.k == 'truth' or t.a[0] in ('isnot', '!='))
        if t.k == 'cmp' and t.a[0] == '==' and t.a[1] is t.a[2] and t.a[1].k == 'sym':
            return TRUE
    return None


def holds(sym_, v):
    def f(t):
        return const(v) if t.k == 'truth' and t.a[0] is sym_ else None
    return f


def D(E, **k):
    return E.alloc('dict', [(const(n.replace('__', '.')), v) for n, v in k.items()])


def rpcs(E, ext_, keys=None):
    ka, kb = keys or ('a' + ext_, 'b' + ext_)
    d = D(E, **{ka: D(E, cam_type=const('rpc'), im_size=S('imA'), rpc=S('rpcA')), kb: D(E, cam_type=const('rpc'), im_size=S('imB'), rpc=S('rpcB'))})
    v, _, _ = E.run(E.modvar(Q + 'factory', 'RpcCameras'), [d])
    return v


def frames(E, kind, shared, keys=('a.tif', 'b.tif')):
    ip = lambda n: D(E, cam_type=const(kind), im_size=S('im' + n), focal_len=S('f' + n))
    ip_d = D(E, c1=ip('A')) if shared else D(E, c1=ip('A'), c2=ip('B'))
    ep = lambda n, c: D(E, xyz=S('xyz' + n), opk=S('opk' + n), **({'camera': const(c)} if shared is not None else {}))
    if shared is None:
        ip_d = D(E, c1=ip('A'))
    ep_d = D(E, **{keys[0]: ep('A', 'c1'), keys[1]: ep('B', 'c1' if shared else 'c2')})
    v, _, _ = E.run(E.modvar(Q + 'factory', 'FrameCameras'), [ip_d, ep_d])
    return v


def get(E, f, n):
    v, _, _ = E.run(E.getattr_(f, 'get'), [const(n)])
    return v


def check(ctx):
    ctx.rule('change', 'the value of an operation after changing a parameter is the value for a new camera with that parameter', 30)
    ctx.rule('refine', 'a camera requested after refinement has the refined model, whether or not it was requested before', 2)
    ctx.rule('get', 'a camera requested from a factory has the parameters of the image, whatever was requested before', 4)
    ctx.rule('own', 'a camera that was requested earlier keeps the parameters of its image', 4)
    first = dict(xyz=S('xyz0'), opk=S('opk0'))
    both = dict(xyz=S('xyz3'), opk=S('opk3'))
    ne, eq = eqcase(S('alpha1'), S('alpha0'), False), eqcase(S('alpha1'), S('alpha0'), True)
    kinds = [('pinhole', 'brown', 'fisheye'), scen.FRAME][ctx.tier != 'quick']
    for k in kinds:
        todo = [(n, d, 'exterior parameters', dict(first, distort=d), update, dict(both, distort=d), (None,))
                for n, ds in (('world_to_pixel', (TRUE, FALSE)), ('pixel_to_world_z', (TRUE, FALSE)), ('world_boundary', (FALSE,)), ('remap', (TRUE, FALSE)), ('pos', (TRUE,)))
                for d in ds]
        todo += [(n, FALSE, 'alpha', dict(both, distort=FALSE, alpha=S('alpha0')), setter('alpha', S('alpha1')), dict(both, distort=FALSE, alpha=S('alpha1')), (ne, eq))
                 for n in ('world_to_pixel', 'pixel_to_world_z', 'pixel_boundary', 'read')]
        todo += [(n, d, 'distort', dict(both, distort=TRUE if d is FALSE else FALSE), setter('distort', d), dict(both, distort=d), (None,))
                 for n in ('world_to_pixel', 'read', 'pixel_boundary') for d in (TRUE, FALSE)]
        for n, d, what, a, then, b, cases in todo:
            r = change(ctx.repo, k, a, then, b, n)
            if r is None:
                ctx.ob('change', f'{k}.{n} after a change of {what} (distort {show(d)})', False, 'the camera cannot be constructed or changed')
                continue
            E, (x, y) = r
            ok, msg = equal(x, y, cases)
            ctx.ob('change', f'{k}.{n} after a change of {what} (distort {show(d)})', ok, 'the value is ' + msg)
            ctx.seen(E)
    E = scen.new(ctx.repo, **TYPES)
    for ext_ in ('.tif', ''):
        how = 'file names' if ext_ else 'names without extension'
        res = {}
        for before in (False, True):
            for n in ('a.tif', 'b.tif'):
                E = scen.new(ctx.repo, **TYPES)
                f = rpcs(E, ext_)
                if f is None:
                    continue
                if before:
                    warm(E, get(E, f, n), ('world_to_pixel', 'pixel_to_world_z'))
                E.run(E.getattr_(f, 'refine'), [D(E, **{'a' + ext_: S('gA'), 'b' + ext_: S('gB')})])
                c = get(E, f, n)
                res[n, before] = op(E, c, 'world_to_pixel') if c is not None else None
                ctx.seen(E)
        for n, g, rp in (('a.tif', 'gA', 'rpcA'), ('b.tif', 'gB', 'rpcB')):
            x, y = res.get((n, True)), res.get((n, False))
            if x is None or y is None:
                ctx.ob('refine', f'RpcCameras {n}, {how}', False, 'no camera is returned after refinement')
                continue
            cases = [combine(holds(S('gA'), p), holds(S('gB'), q)) for p in (True, False) for q in (True, False)]
            ok, msg = equal(x, y, cases)
            ctx.ob('refine', f'RpcCameras.get({n}) after refine, {how}', ok, 'its results depend on an earlier request: ' + msg)
            for gv in (True, False):
                other = 'gB' if g == 'gA' else 'gA'
                for ov in (True, False):
                    z = simp(y, combine(holds(S(g), gv), holds(S(other), ov)))
                    s = syms(z)
                    ctx.ob('refine', f'RpcCameras.get({n}) model, {how}', rp in s and (g in s) == gv and other not in s and ('rpcB' if rp == 'rpcA' else 'rpcA') not in s,
                           f'the model of {n} depends on {sorted(s & {"gA", "gB", "rpcA", "rpcB"})} when control points for it are {"" if gv else "not "}given')
    for shared, how in ((True, 'same camera ID'), (False, 'different camera IDs'), (None, 'no camera ID')):
        vals = {}
        for seq in (('a.tif',), ('b.tif',), ('a.tif', 'b.tif'), ('b.tif', 'a.tif')):
            E = scen.new(ctx.repo, **TYPES)
            f = frames(E, 'pinhole', shared)
            cs = [get(E, f, n) for n in seq] if f is not None else []
            if any(c is None for c in cs) or not cs:
                vals = None
                break
            for n, c in zip(seq, cs):
                vals[seq, n] = op(E, c, 'world_to_pixel')
            ctx.seen(E)
        if vals is None:
            ctx.ob('get', f'FrameCameras.get, {how}', False, 'no camera is returned')
            continue
        for n, s in (('a.tif', ('b.tif', 'a.tif')), ('b.tif', ('a.tif', 'b.tif'))):
            ok, msg = equal(vals[s, n], vals[(n,), n], (None,))
            ctx.ob('get', f'FrameCameras.get({n}) after get({s[0]}), {how}', ok, 'its results are ' + msg)
            me, ot = ('A', 'B') if n == 'a.tif' else ('B', 'A')
            sy = syms(vals[(n,), n])
            ctx.ob('get', f'FrameCameras.get({n}), {how}', {'xyz' + me, 'opk' + me} <= sy and not {'xyz' + ot, 'opk' + ot} & sy and ('fA' if shared in (True, None) else 'f' + me) in sy,
                   f'its results depend on {sorted(sy)[:8]}')
            o = 'b.tif' if n == 'a.tif' else 'a.tif'
            ok, msg = equal(vals[(n, o), n], vals[(n,), n], (None,))
            ctx.ob('own', f'FrameCameras.get, {how}', ok, f'the camera of {n} is changed by get({o}): its results are {msg}')


    # names that differ in the extension, or in what follows an inner dot
    for keys, names in ((('a.tif', 'a.jpg'), ('a.tif', 'a.jpg')), (('a.1', 'a.2'), ('a.1.tif', 'a.2.tif')), (('a', 'b'), ('1/a.tif', '1/b.tif'))):
        for fac, make, par in (('RpcCameras', lambda E: rpcs(E, '', keys), ('rpcA', 'rpcB')), ('FrameCameras', lambda E: frames(E, 'pinhole', False, keys), ('xyzA', 'xyzB'))):
            for seq in (names, names[::-1]):
                E = scen.new(ctx.repo, **TYPES)
                f = make(E)
                cs = [get(E, f, n) if f is not None else None for n in seq]
                ctx.seen(E)
                for n, c in zip(seq, cs):
                    own, other = par if n == names[0] else par[::-1]
                    sy = syms(op(E, c, 'world_to_pixel')) if c is not None else set()
                    ctx.ob('get', f'{fac}.get({n}) in the sequence {seq}', own in sy and other not in sy, f'its results depend on {sorted(sy & set(par))}' if c is not None else 'no camera is returned')


def combine(*fs):
    def f(t):
        for g in fs:
            r = g(t)
            if r is not None:
                return r
        return None
    return f
