"""C28: algebraic normal form of the camera projections, compared with the documented models.

World coordinates are given to the camera in the form T + s R (u, v, 1), which covers every world point that is not in the plane of
the camera, so that every correct way of writing the projection reduces to the documented expression in (u, v)."""
from .common import *
from .. import scen
from ..rows import *
from ..scen import Q
from .c14 import subterms

NAMES = dict(pinhole='', brown='k1 k2 p1 p2 k3', opencv='k1 k2 k3 p1 p2 k4 k5 k6 s1 s2 s3 s4 tx ty', fisheye='k1 k2 k3 k4')
FULL = 200000
W, JI, Z = S('wxyz'), S('ji'), S('zf')


def tup(*n):
    return mk('tuple', *[S(x) for x in n])


def rotation():
    """Camera (x right, y down, z forwards) to world rotation, from the omega, phi and kappa angles."""
    o, z = rat(1), rat(0)
    c, s = (lambda a: fn('cos', scalar(a))), (lambda a: fn('sin', scalar(a)))
    rx = [[o, z, z], [z, c('om'), -s('om')], [z, s('om'), c('om')]]
    ry = [[c('ph'), z, s('ph')], [z, o, z], [-s('ph'), z, c('ph')]]
    rz = [[c('ka'), -s('ka'), z], [s('ka'), c('ka'), z], [z, z, o]]
    return mm(mm(mm(rx, ry), rz), [[o, z, z], [z, -o, z], [z, z, -o]])


def mm(a, b):
    return [[total(a[i][q] * b[q][j] for q in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def intrinsic(sensor, focal):
    """(focal lengths, principal point) in pixels."""
    w, h, big = scalar('w'), scalar('h'), maxof(scalar('w'), scalar('h'))
    f = [scalar('f')] * 2 if focal == 1 else [scalar('fx'), scalar('fy')]
    f = [f[0] * w / scalar('sw'), f[1] * h / scalar('sh')] if sensor else [f[0] * big, f[1] * big]
    return f, [(w - rat(1)) / rat(2) + big * scalar('cx'), (h - rat(1)) / rat(2) + big * scalar('cy')]


def distorted(kind, u, v, k):
    """Documented distortion of the normalised camera coordinates, None where it is left to OpenCV."""
    if kind == 'pinhole':
        return u, v
    if kind == 'brown':
        r2 = u * u + v * v
        rad = rat(1) + r2 * (k['k1'] + r2 * (k['k2'] + r2 * k['k3']))
        return (u * rad + rat(2) * k['p1'] * u * v + k['p2'] * (r2 + rat(2) * u * u),
                v * rad + k['p1'] * (r2 + rat(2) * v * v) + rat(2) * k['p2'] * u * v)
    if kind == 'fisheye':
        r = fn('sqrt', u * u + v * v)
        th = fn('arctan', r)
        t2 = th * th
        d = th * (rat(1) + t2 * (k['k1'] + t2 * (k['k2'] + t2 * (k['k3'] + t2 * k['k4']))))
        return u * d / r, v * d / r


def build(E, kind, sensor, focal, distort, zero=()):
    kw = dict(sensor_size=tup('sw', 'sh') if sensor else NONE, cx=S('cx'), cy=S('cy'), xyz=tup('X0', 'Y0', 'Z0'), opk=tup('om', 'ph', 'ka'), distort=distort)
    for n in NAMES[kind].split():
        kw[n] = const(0.0) if n in zero else S(n)
    cam, _, _ = E.run(E.modvar(Q + 'camera', scen.CAMS[kind]), [tup('w', 'h'), tup('fx', 'fy') if focal == 2 else S('f')], kw)
    if cam is None:
        raise AnalysisError(f'{kind} camera cannot be constructed')
    return cam


def op(E, cam, name, *args):
    st = E.st.fork()
    v, _, _ = E.run(E.getattr_(cam, name), list(args), {})
    v = None if v is None else E.freeze(v)
    E.st = st
    return v


def same_rows(A, got, want):
    """How the first row that differs differs, None if none does."""
    try:
        return same_rows_(A, got, want)
    except TooBig:
        return 'its normal form does not reduce to the documented expression'


def same_rows_(A, got, want):
    got = unlazy(A.val(got) if isinstance(got, T) else got)
    if not isinstance(got, Arr) or got.n is not None and got.n != len(want):
        return 'the value is not an array of coordinates'
    for i, x in enumerate(want):
        g = got.get(i)
        if not isinstance(g, Rat):
            return f'row {i} is not one value per coordinate'
        if not g == x:
            return f'row {i} is {str(g)[:160]}, not {str(x)[:160]}'
    return None


def pixels(kind, sensor, focal, zero, u, v):
    f, c = intrinsic(sensor, focal)
    d = distorted(kind, u, v, {n: rat(0) if n in zero else scalar(n) for n in NAMES[kind].split()})
    return None if d is None else [f[0] * d[0] + c[0], f[1] * d[1] + c[1]]


def check(ctx):
    ctx.rule('forward', 'world_to_pixel() is the documented projection: rotation by omega, phi and kappa, perspective division, documented distortion, focal length and principal point in pixels', 12)
    ctx.rule('inverse', 'pixel_to_world_z() is the point at the given z on the line through the camera position and the (undistorted) pixel', 8)
    ctx.rule('axis', 'world_to_pixel() of points on the optical axis is the principal point', 8)
    ctx.rule('library', 'distortion left to OpenCV is evaluated at the camera coordinates, with the camera intrinsic matrix', 2)
    ctx.rule('undistorted', 'without distortion, pixel_to_world_z() and world_to_pixel() are inverses', 3)
    ctx.rule('rpc', 'world_to_pixel() of an RPC camera is the RPC00B ratio of cubic polynomials', 2)
    R = rotation()
    u, v, s = scalar('u'), scalar('v'), scalar('s')
    T0 = [scalar(n) for n in ('X0', 'Y0', 'Z0')]
    ray = lambda a, b: [R[i][0] * a + R[i][1] * b + R[i][2] for i in range(3)]
    P = [t + s * r for t, r in zip(T0, ray(u, v))]
    P0 = [t + s * r for t, r in zip(T0, ray(rat(0), rat(0)))]

    def atz(a, b):
        r = ray(a, b)
        q = (scalar('zf') - T0[2]) / r[2]
        return [T0[0] + q * r[0], T0[1] + q * r[1], scalar('zf')]

    cases = [(sn, fc) for sn in (True, False) for fc in (1, 2)]
    for kind in scen.FRAME:
        zeros = [()] + ([('k3', 'k4'), ('k4',), ('k3',)] if kind == 'fisheye' else [('p1', 'p2', 'k3')] if kind == 'brown' else [])
        for sensor, focal in cases:
            for zero in zeros:
                for distort in (TRUE, FALSE) if kind == 'pinhole' else (TRUE,):
                    E = scen.new(ctx.repo)
                    cam = build(E, kind, sensor, focal, distort, zero)
                    lab = f"{kind}, {'with' if sensor else 'without'} sensor size, {focal} focal length(s)" + (f", zero {' '.join(zero)}" if zero else '')
                    ctx.seen(E, lab)
                    f, c = intrinsic(sensor, focal)
                    K = [[f[0], rat(0), c[0]], [rat(0), f[1], c[1]], [rat(0), rat(0), rat(1)]]
                    # world to pixel
                    t = op(E, cam, 'world_to_pixel', W)
                    want = pixels(kind, sensor, focal, zero, u, v)
                    if t is None:
                        ctx.ob('forward', lab, False, 'world_to_pixel() cannot return')
                    else:
                        A = Algebra(opaque=lambda x: arr(P) if x is W else None, lim=FULL, dotlim=FULL, generic=True)
                        if want is not None:
                            bad = same_rows(A, t, want)
                            ctx.ob('forward', lab, bad is None, bad or '')
                            A = Algebra(opaque=lambda x: arr(P0) if x is W else None, lim=FULL, dotlim=FULL, generic=True)
                            bad = same_rows(A, t, c)
                            ctx.ob('axis', lab, bad is None, bad or '')
                        else:
                            for x in lib_calls(t, 'projectPoints'):
                                bad = library(A, x, [u, v, rat(1)], K)
                                ctx.ob('library', f'{lab}, world_to_pixel()', bad is None, bad or '')
                            bad = passed_on(A, t, 'projectPoints')
                            ctx.ob('forward', lab, bad is None, bad or '')
                    # pixel to world
                    t = op(E, cam, 'pixel_to_world_z', JI, Z)
                    if t is None:
                        ctx.ob('inverse', lab, False, 'pixel_to_world_z() cannot return')
                        continue
                    if kind == 'pinhole':
                        A = Algebra(opaque=lambda x: arr(want) if x is JI else None, lim=FULL, dotlim=FULL, generic=True)
                        bad = same_rows(A, t, atz(u, v))
                    else:
                        A = Algebra(lens={'ji': 2}, lim=FULL, dotlim=FULL, generic=True)
                        pts = lib_calls(t, 'undistortPoints')
                        for x in pts:
                            bad = library(A, x, [scalar('ji[0]'), scalar('ji[1]')], K)
                            ctx.ob('library', f'{lab}, pixel_to_world_z()', bad is None, bad or '')
                        if len(pts) != 1:
                            bad = f'the pixel coordinates are undistorted by {len(pts)} different calls'
                        else:
                            p = A.val(mk('sub', pts[0], const(0)) if pts[0].k == 'tuple' else pts[0])
                            bad = same_rows(A, t, atz(p.get(0), p.get(1))) if isinstance(p, Arr) else 'the result of undistortPoints() is not used as coordinates'
                    ctx.ob('inverse', lab, bad is None, bad or '')
        if kind != 'pinhole':
            E = scen.new(ctx.repo)
            cam = build(E, kind, True, 2, FALSE)
            ctx.seen(E, f'{kind}, undistorted')
            t = op(E, cam, 'pixel_to_world_z', JI, Z)
            bad = 'pixel_to_world_z() cannot return'
            if t is not None:
                A = Algebra(lens={'ji': 2}, lim=FULL, dotlim=FULL, generic=True, matlim=6)
                back = op(E, cam, 'world_to_pixel', t)
                val = A.val(t)
                bad = 'world_to_pixel() cannot return' if back is None else same_rows(A, back, [scalar('ji[0]'), scalar('ji[1]')])
                if bad is None and not (isinstance(val, Arr) and val.get(2) == scalar('zf')):
                    bad = 'the z coordinate of pixel_to_world_z() is not the given z'
            ctx.ob('undistorted', kind, bad is None, bad or '')
    rpc(ctx)


OFF = {f'{n}_{w}' for n in ('long', 'lat', 'height', 'samp', 'line') for w in ('off', 'scale')}
COEFS = {f'{n}_{w}_coeff' for n in ('samp', 'line') for w in ('num', 'den')}


def rpc_terms(x, y, z):
    """Terms of the RPC00B polynomials, for normalised longitude, latitude and height."""
    return [rat(1), x, y, z, x * y, x * z, y * z, x * x, y * y, z * z, x * y * z, x * x * x, x * y * y, x * z * z, x * x * y, y * y * y, y * z * z, x * x * z, y * y * z, z * z * z]


def rpc_field(x):
    """Value of a field of the RPC parameters, None for other terms."""
    n = x.a[1] if x.k == 'attr' else pyval(x.a[1])[1] if x.k == 'sub' and pyval(x.a[1])[0] else None
    if n in OFF and 'rpc' in syms(x):
        return scalar(n)
    if n in COEFS and 'rpc' in syms(x):
        return symarr(n, 20)


def rpc(ctx):
    n = [scalar('L'), scalar('P'), scalar('H')]
    P = arr(scalar(f'{a}_off') + scalar(f'{a}_scale') * x for a, x in zip(('long', 'lat', 'height'), n))
    poly = lambda c: total(symarr(c, 20).get(i) * m for i, m in enumerate(rpc_terms(*n)))
    want = [scalar(f'{a}_off') + scalar(f'{a}_scale') * poly(f'{a}_num_coeff') / poly(f'{a}_den_coeff') for a in ('samp', 'line')]
    for how, crs in (('geographic CRS', NONE), ('other CRS', S('crs'))):
        for given in ('RPC', 'dict'):
            E = scen.new(ctx.repo, rpc=('rasterio.rpc.RPC',) if given == 'RPC' else ('dict',))
            cam, _, _ = E.run(E.modvar(Q + 'camera', 'RpcCamera'), [tup('w', 'h'), S('rpc')], dict(crs=crs))
            lab = f'RPC camera, {how}, parameters as {given}'
            ctx.seen(E, lab)
            t = None if cam is None else op(E, cam, 'world_to_pixel', W)
            if t is None:
                ctx.ob('rpc', lab, False, 'world_to_pixel() cannot return')
                continue
            t = simp(t, lambda x: TRUE if x.k == 'truth' and x.a[0].k == 'sym' and x.a[0].a[0] == 'crs' else None)
            errs = []

            def opaque(x):
                if x is W:
                    return P if crs is NONE else symarr('wxyz', 3)
                if x.k == 'call' and callname(x) == 'rasterio.warp.transform':
                    a = dict(zip(('src_crs', 'dst_crs', 'xs', 'ys', 'zs'), unstar(x.a[1])))
                    a.update(dict(x.a[2]))
                    if crs is not NONE and not crs_is(a.get('src_crs'), 'crs'):
                        errs.append('the coordinates are not transformed from the CRS of the camera')
                    if syms(a.get('dst_crs', NONE)) or '4979' not in show(a.get('dst_crs', NONE), 3):
                        errs.append('the coordinates are not transformed to the geographic CRS of the RPC model')
                    got = [unlazy(A.val(a[z])) if z in a else None for z in ('xs', 'ys', 'zs')]
                    if any(not isinstance(g, Rat) or not g == scalar(f'wxyz[{i}]') for i, g in enumerate(got)):
                        errs.append('the coordinates transformed are not (x, y, z)')
                    return P
                return rpc_field(x)
            A = Algebra(opaque=opaque, lim=FULL, dotlim=FULL, generic=True)
            bad = same_rows(A, t, want)
            if crs is not NONE and not any(callname(x) == 'rasterio.warp.transform' for x in subterms(t) if x.k == 'call'):
                errs.append('the coordinates are not transformed to the CRS of the RPC model')
            ctx.ob('rpc', lab, bad is None and not errs, bad or '; '.join(sorted(set(errs))))
            bad = rpc_inverse(E, cam, crs)
            ctx.ob('inverse', lab, bad is None, bad or '')


def rpc_inverse(E, cam, crs):
    t = op(E, cam, 'pixel_to_world_z', JI, Z)
    if t is None:
        return 'pixel_to_world_z() cannot return'
    t = simp(t, lambda x: TRUE if x.k == 'truth' and x.a[0].k == 'sym' and x.a[0].a[0] == 'crs' else None)
    errs, used = [], []

    def opaque(x):
        if x.k == 'call' and callname(x) == 'rasterio.warp.transform':
            a = dict(zip(('src_crs', 'dst_crs', 'xs', 'ys', 'zs'), unstar(x.a[1])))
            a.update(dict(x.a[2]))
            if not crs_is(a.get('dst_crs'), 'crs') or syms(a.get('src_crs', NONE)) or '4979' not in show(a.get('src_crs', NONE), 3):
                errs.append('the coordinates are not transformed from the CRS of the RPC model to that of the camera')
            got = [unlazy(A.val(a[z])) if z in a else None for z in ('xs', 'ys', 'zs')]
            if any(not isinstance(g, Rat) or not g == q for g, q in zip(got, (scalar('lon'), scalar('lat'), scalar('zf')))):
                errs.append('the coordinates transformed are not (longitude, latitude, z)')
            used.append('transform')
            return symarr('world', 3)
        if x.k == 'call' and x.a[0].k == 'attr' and x.a[0].a[1] == 'xy' or callname(x) == 'rasterio.transform.xy':
            names = ('rows', 'cols', 'zs', 'offset') if callname(x) != 'rasterio.transform.xy' else ('transform', 'rows', 'cols', 'zs', 'offset')
            a = dict(zip(names, x.a[1]))
            a.update(dict(x.a[2]))
            d = {'center': rat(0), 'ul': rat(1) / rat(2)}.get(pyval(a.get('offset', const('center')))[1])
            if d is None:
                errs.append('the offset of the pixel coordinates is unknown')
                d = rat(0)
            for n, w in (('rows', scalar('ji[1]') + d), ('cols', scalar('ji[0]') + d), ('zs', scalar('zf'))):
                g = unlazy(A.val(a[n])) if n in a else None
                if not isinstance(g, Rat) or not g == w:
                    errs.append(f'the {n} of the RPC transform are not those of the pixel centres' if n != 'zs' else 'the height of the RPC transform is not z')
            used.append('xy')
            return arr([scalar('lon'), scalar('lat')])
        return None
    A = Algebra(lens={'ji': 2}, opaque=opaque, lim=FULL, dotlim=FULL, generic=True)
    bad = same_rows(A, t, [scalar('lon'), scalar('lat'), scalar('zf')] if crs is NONE else [scalar(f'world[{i}]') for i in range(3)])
    for n in ('xy',) + (() if crs is NONE else ('transform',)):
        if n not in used:
            errs.append('the coordinates are not transformed')
    return bad or '; '.join(sorted(set(errs))) or None


def crs_is(t, name):
    """The value is the named CRS, or made from it."""
    return t is not None and syms(t) == {name}


def unstar(args):
    """Positional arguments with starred (x, y, z) arrays taken apart."""
    out = []
    for a in args:
        if a.k in ('star', 'starred'):
            out += [mk('sub', a.a[0], const(i)) for i in range(3)]
        else:
            out.append(a)
    return out


def lib_calls(t, name):
    return [x for x in subterms(t) if x.k == 'call' and (callname(x) or '').startswith('cv2.') and callname(x).split('.')[-1] == name]


def passed_on(A, t, name):
    """The coordinates returned are those of the library call, unchanged."""
    cs = lib_calls(t, name)
    if len(cs) != 1:
        return f'the coordinates come from {len(cs)} calls of {name}()'
    v, p = unlazy(A.val(t)), A.val(mk('sub', cs[0], const(0)))
    if not isinstance(v, Arr) or not isinstance(p, Arr) or any(not v.get(i) == p.get(i) for i in range(2)):
        return f'the coordinates returned are not those of {name}()'


ARGS = {'cv2.projectPoints': ('objectPoints', 'rvec', 'tvec', 'cameraMatrix', 'distCoeffs'),
        'cv2.fisheye.projectPoints': ('objectPoints', 'rvec', 'tvec', 'K', 'D'),
        'cv2.undistortPoints': ('src', 'cameraMatrix', 'distCoeffs', 'dst', 'R', 'P'),
        'cv2.fisheye.undistortPoints': ('distorted', 'K', 'D', 'undistorted', 'R', 'P')}


def library(A, x, pts, K):
    names = ARGS.get(callname(x), ())
    a = dict(zip(names, x.a[1]))
    a.update(dict(x.a[2]))
    k = unlazy(A.val(a.get('cameraMatrix', a.get('K', NONE))))
    if not isinstance(k, Arr) or not k.is_mat() or any(not k.get(i).get(j) == K[i][j] for i in range(3) for j in range(3)):
        return 'the intrinsic matrix passed is not that of the camera'
    for n in ('rvec', 'tvec'):
        if n in a:
            z = unlazy(A.val(a[n]))
            if not (isinstance(z, Rat) and z.const() == 0 or isinstance(z, Arr) and z.n is not None and all(isinstance(q, Rat) and q.const() == 0 for q in z.rows())):
                return f'{n} is not zero, but the points are in camera coordinates'
    for n in ('R', 'P'):
        if n in a and a[n] is not NONE:
            return f'{n} is passed to {callname(x)}()'
    p = a.get(names[0]) if names else None
    p = unlazy(A.val(p)) if p is not None else None
    while isinstance(p, Arr) and p.n == 1 and isinstance(p.get(0), Arr):
        p = p.get(0)
    bad = same_rows(A, p, pts) if isinstance(p, Arr) else 'they are not coordinates'
    return None if bad is None else f'points passed to {callname(x)}(): {bad}'
