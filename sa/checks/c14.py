"""C14: camera types, their parameters, and option values mean the same thing in every part of the package."""
from .common import *
from .. import scen, rows
from ..rows import Algebra, Arr, rat, fn, scalar
from ..scen import Q
from .c12 import op, equal, D, coeffs

COEF = {'pinhole': [], 'brown': 'k1 k2 p1 p2 k3'.split(), 'opencv': 'k1 k2 p1 p2 k3 k4 k5 k6 s1 s2 s3 s4 tx ty'.split(), 'fisheye': 'k1 k2 k3 k4'.split()}
ODM = {'perspective': 'brown', 'simple_radial': 'brown', 'radial': 'brown', 'brown': 'brown', 'fisheye': 'fisheye', 'opencv': 'opencv'}
OSFM = {'perspective': 'k1 k2', 'simple_radial': 'k1', 'radial': 'k1 k2', 'brown': 'k1 k2 p1 p2 k3', 'fisheye': 'k1 k2', 'opencv': ' '.join(COEF['opencv'])}
INTERP = {'nearest': ('INTER_NEAREST', 'nearest'), 'average': ('INTER_AREA', 'average'), 'bilinear': ('INTER_LINEAR', 'bilinear'),
          'cubic': ('INTER_CUBIC', 'cubic'), 'lanczos': ('INTER_LANCZOS4', 'lanczos')}
TYPES = dict(src_file=('DatasetReader',), z_any=('float',), clip=('bool',), num_pts=('int',), alpha=('float',), focal_len=('tuple',),
             sensor_size=('tuple',), im_size=('tuple',), cx=('float',), cy=('float',), zf=('float',), gA=('list',), w=('int',), h=('int',), focal=('float',),
             **{c: ('float',) for v in COEF.values() for c in v})
EXT = dict(xyz=S('xyz3'), opk=S('opk3'))
LENS = dict(wxyz=3, ji=2, xyz3=3, opk3=3, focal_len=2, sensor_size=2, im_size=2)


def untuple(t):
    """Conversion of a sequence of coordinates to a tuple, or of a size to integers, does not change it."""
    if t.k == 'call' and callname(t) in ('builtins.tuple', 'builtins.list', 'builtins.float') and len(t.a[1]) == 1 and t.a[1][0].k == 'sym':
        return t.a[1][0]
    if t.k == 'cmp' and t.a[0] in ('is', 'isnot') and t.a[2] is NONE and t.a[1].k == 'sym':
        return const(t.a[0] == 'isnot')
    return None


def norm(t):
    return simp(t, lambda x: coeffs(x) or untuple(x)) if t is not None else None


def member(E, cls, name):
    for m in E.enum_members(Q + 'enums.' + cls):
        if m.a[1] == name:
            return m
    return None


def direct(E, kind, distort, present=None):
    cls = E.modvar(Q + 'camera', scen.CAMS[kind])
    cs = COEF[kind] if present is None else present
    v, _, _ = E.run(cls, [S('im_size'), S('focal_len')], dict(sensor_size=S('sensor_size'), cx=S('cx'), cy=S('cy'), distort=distort, **EXT, **{c: S(c) for c in cs}))
    return v


def model_ops(E, cam):
    return [op(E, cam, n) for n in ('world_to_pixel', 'pixel_to_world_z', 'read')]


def compare(ctx, rule, what, E, cam, ref, unit=None):
    """Operations of `cam` have the values of the operations of `ref`."""
    if cam is None or ref is None:
        ctx.ob(rule, what, False, 'no camera is created')
        return
    f = unit or (lambda t: t)
    for n, x, y in zip(('world_to_pixel', 'pixel_to_world_z', 'read'), model_ops(E, cam), model_ops(E, ref)):
        x, y = norm(f(x)) if x is not None else None, norm(f(y)) if y is not None else None
        ok, msg = equal(x, y, (None,))
        ctx.ob(rule, f'{what}: {n}', ok, 'the value is ' + msg)


def check(ctx):
    ctx.rule('create', 'every camera type, given by name or as enumeration value, is created with its own model', 8)
    ctx.rule('file', 'every parameter in a file is applied as the parameter of that name of the model of the camera type', 12)
    ctx.rule('vector', 'coefficients are given to OpenCV in its documented order, without dropping non-zero ones, and to the functions of the right model', 6)
    ctx.rule('formula', 'the projection with distortion is the documented distortion model', 4)
    ctx.rule('fit', 'fitting uses the coefficients of the camera type as projection does', 4)
    ctx.rule('interp', 'interpolation values map to the same method everywhere, given by name or as enumeration value', 10)
    kinds = list(COEF)
    # --- creation
    for k in kinds + ['rpc']:
        for how in ('name', 'member'):
            E = scen.new(ctx.repo, **TYPES)
            t = const(k) if how == 'name' else member(E, 'CameraType', k)
            if t is None:
                ctx.ob('create', f'{k} ({how})', False, 'there is no such camera type')
                continue
            fnc = E.modvar(Q + 'camera', 'create_camera')
            if k == 'rpc':
                v, _, _ = E.run(fnc, [t, S('im_size'), S('rpc')], {})
                ref, _, _ = E.run(E.modvar(Q + 'camera', 'RpcCamera'), [S('im_size'), S('rpc')], {})
                compare1(ctx, f'create_camera({k}) by {how}', E, v, ref)
            else:
                kw = dict(sensor_size=S('sensor_size'), cx=S('cx'), cy=S('cy'), distort=TRUE, **EXT, **{c: S(c) for c in COEF[k]})
                v, _, _ = E.run(fnc, [t, S('im_size'), S('focal_len')], kw)
                compare(ctx, 'create', f'create_camera({k}) by {how}', E, v, direct(E, k, TRUE))
            ctx.seen(E)
    # --- files
    for k in kinds:
        for sub_ in subsets(COEF[k]):
            E = scen.new(ctx.repo, **TYPES)
            ent = dict(type=const(k), im_size=S('im_size'), focal_len=S('focal_len'), sensor_size=S('sensor_size'), cx=S('cx'), cy=S('cy'), **{c: S(c) for c in sub_})
            cam = via_file(E, 'p.yaml', {'c1': ent})
            compare(ctx, 'file', f'Orthority interior parameters, {k} with {", ".join(sub_) or "no coefficients"}', E, cam, direct(E, k, TRUE, sub_))
            ctx.seen(E)
    for pt, k in ODM.items():
        E = scen.new(ctx.repo, **TYPES)
        cs = OSFM[pt].split()
        ent = dict(projection_type=const(pt), width=S('w'), height=S('h'), focal_x=S('fx'), focal_y=S('fy'), c_x=S('cx'), c_y=S('cy'), **{c: S(c) for c in cs})
        cam = via_file(E, 'cameras.json', {'c1': ent})
        E2 = E
        v, _, _ = E.run(E.modvar(Q + 'camera', scen.CAMS[k]), [mk('tuple', S('w'), S('h')), mk('tuple', S('fx'), S('fy'))],
                        dict(cx=S('cx'), cy=S('cy'), distort=TRUE, **EXT, **{c: S(c) for c in cs}))
        compare(ctx, 'file', f'OpenSfM interior parameters, {pt}', E, cam, v, unit=lambda t: simp(t, fxfy))
        ctx.seen(E)
    # --- coefficient vectors and formulas
    pin = None
    for k in kinds:
        for d in (TRUE, FALSE):
            E = scen.new(ctx.repo, **TYPES)
            cam = direct(E, k, d)
            if cam is None:
                ctx.ob('vector', f'{k} camera', False, 'it cannot be created')
                continue
            for n in ('world_to_pixel', 'pixel_to_world_z', 'read', 'pixel_boundary'):
                a, kw = scen.CAM_OPS[n]
                m = E.getattr_(cam, n)
                fv = scen.fn_of(E, m)
                v, _, ev = E.run(m, list(a), {x: y for x, y in kw.items() if fv is None or x in fv.params()})
                vectors(ctx, E, k, f'{k}.{n} (distort {show(d)})', ev)
                if n == 'world_to_pixel' and d is TRUE and v is not None:
                    if k == 'pinhole':
                        pin = v = E.freeze(v)
                    elif k in ('brown', 'fisheye') and pin is not None:
                        formula(ctx, k, simp(pin, untuple), simp(E.freeze(v), untuple))
            ctx.seen(E)
    fits(ctx)
    interps(ctx)
    res = {}
    for nm in ('shift', 'shift-drift'):
        for how in ('name', 'member'):
            E = scen.new(ctx.repo, **TYPES)
            m = const(nm) if how == 'name' else next((x for x in E.enum_members(Q + 'enums.RpcRefine') if pyval(E.getattr_(x, 'value'))[1] == nm), None)
            v, _, _ = E.run(E.modvar(Q + 'fit', 'refine_rpc'), [S('rpc'), S('gA')], dict(method=m)) if m is not None else (None, 0, 0)
            res[nm, how] = None if v is None else E.freeze(v)
            ctx.seen(E)
        ctx.ob('create', f'refine_rpc method {nm}', res[nm, 'name'] is not None and res[nm, 'member'] is not None and same(res[nm, 'name'], res[nm, 'member']),
               'the method is not accepted both by name and as enumeration value with the same result')
    ctx.ob('create', 'refine_rpc methods', res['shift', 'name'] is not None and res['shift-drift', 'name'] is not None and not same(res['shift', 'name'], res['shift-drift', 'name']), 'the methods are not distinguished')


def fxfy(t):
    """focal_x == focal_y gives the same focal lengths as a pair; int(width) is width."""
    if t.k == 'cmp' and t.a[0] in ('==', '!=') and {x.a[0] for x in t.a[1:] if x.k == 'sym'} == {'fx', 'fy'}:
        return const(t.a[0] == '!=')
    return None


def subsets(cs):
    if not cs:
        return [[]]
    return [cs, cs[:1]] + ([cs[:4]] if len(cs) > 4 else []) + [[]]


def via_file(E, name, cams):
    def load(E, a, kw, n):
        return E.alloc('dict', [(const(c), D(E, **p)) for c, p in cams.items()])
    E.ext_values.update({'yaml.safe_load': load, 'json.load': load})
    ep = D(E, a__tif=D(E, camera=const('c1'), **EXT))
    f, _, _ = E.run(E.modvar(Q + 'factory', 'FrameCameras'), [const(name), ep], dict(cam_kwargs=D(E, distort=TRUE)))
    if f is None:
        return None
    v, _, _ = E.run(E.getattr_(f, 'get'), [const('a.tif')])
    return v


def compare1(ctx, what, E, cam, ref):
    if cam is None or ref is None:
        ctx.ob('create', what, False, 'no camera is created')
        return
    ok, msg = equal(op(E, cam, 'world_to_pixel'), op(E, ref, 'world_to_pixel'), (None,))
    ctx.ob('create', what, ok, 'the value of world_to_pixel is ' + msg)


POS = {'initUndistortRectifyMap': (1, 'distCoeffs', 'D'), 'projectPoints': (4, 'distCoeffs', 'D'), 'undistortPoints': (2, 'distCoeffs', 'D'),
       'undistort': (2, 'distCoeffs', 'D'), 'undistortImage': (2, 'D', 'D'), 'solvePnP': (3, 'distCoeffs', 'distCoeffs'), 'distortPoints': (2, 'D', 'D'),
       'solvePnPRansac': (3, 'distCoeffs', 'distCoeffs'), 'solvePnPGeneric': (3, 'distCoeffs', 'distCoeffs'), 'getOptimalNewCameraMatrix': (1, 'distCoeffs', 'distCoeffs')}


def elements(t):
    """Names of the elements of a vector of coefficients; None if it is something else."""
    if t.k == 'call' and callname(t) in ('numpy.array', 'numpy.asarray', 'builtins.tuple', 'builtins.list') and t.a[1]:
        return elements(t.a[1][0])
    if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] in ('copy', 'astype', 'reshape'):
        return elements(t.a[0].a[0])
    if t.k in ('list', 'tuple'):
        return [x.a[0] if x.k == 'sym' else 0 if pyval(x) in ((True, 0), (True, 0.0)) else None for x in t.a]
    if t.k == 'sub' and t.a[1].k == 'slice':
        e = elements(t.a[0])
        s = [pyval(z) for z in t.a[1].a]
        return e[slice(*[v for _, v in s])] if e is not None and all(ok for ok, _ in s) else None
    if t.k == 'call' and callname(t) in ('numpy.zeros',) and t.a[1] and isinstance(pyval(t.a[1][0])[1], int):
        return [0] * pyval(t.a[1][0])[1]
    return None


def mentioned(c):
    """Names of coefficients a condition is about."""
    out = set()
    todo = [c]
    while todo:
        t = todo.pop()
        e = elements(t)
        if e is not None:
            out |= {x for x in e if isinstance(x, str)}
            continue
        if t.k == 'sym':
            out.add(t.a[0])
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    todo.append(y)
    return out


def zeros(c):
    """Names of the coefficients that are known to be zero when the condition holds."""
    neg = c.k == 'not'
    if c.k == 'and':
        return set().union(*[zeros(x) for x in c.a if isinstance(x, T)])
    eq = any(x.k == 'cmp' and x.a[0] == '==' for x in subterms(c))
    return mentioned(c) if eq != neg else set()


def vector(ctx, rule, what, k, t, e=None, given=None):
    """The value is the vector of coefficients of the camera type in OpenCV order."""
    want = [c if given is None or c in given else 0 for c in COEF[k]]
    w = where(e) if e is not None else ''
    for v, cond in leaves(t):
        el = elements(v)
        if el is None:
            if v is NONE and not want:
                continue
            if v is NONE:
                ctx.ob(rule, what, set(want) <= set().union(*[mentioned(c) for c in cond]), 'the coefficients are not used', w)
                continue
            ctx.ob(rule, what, False, f'the coefficients {show(v)[:80]} are not a vector of the coefficients of the camera', w)
            continue
        n = len(el)
        full = want + [0] * (n - len(want))
        ok = all(a == b or b == 0 == a for a, b in zip(el, full)) and len(el) == len(full[:n])
        ctx.ob(rule, what, ok, f'the order of the coefficients is {el} instead of {want}', w)
        if not ok:
            continue
        if k != 'fisheye' and want:
            ctx.ob(rule, what + ' (length)', n in (4, 5, 8, 12, 14), f'{n} coefficients are given', w)
        gone = set(want[n:]) - {0}
        if gone:
            ctx.ob(rule, what + ' (truncation)', gone <= set().union(*[zeros(c) for c in cond]), f'the coefficients {sorted(gone)} are dropped without knowing that they are zero', w)


def vectors(ctx, E, k, what, ev):
    for e in ev:
        if e.kind != 'call' or not e.name.startswith('cv2.'):
            continue
        s = e.name.split('.')[-1]
        if s not in POS:
            continue
        i, *nm = POS[s]
        a = e.data['args']
        t = a[i] if len(a) > i else next((e.data['kwargs'][n] for n in nm if n in e.data['kwargs']), NONE)
        t = simp(E.freeze(t), untuple)
        fish = e.name.startswith('cv2.fisheye.')
        if t is not NONE and elements(t) and all(x == 0 for x in elements(t)):
            t = NONE
        if t is NONE:
            if COEF[k]:
                # pixel coordinates that were undistorted before have no distortion any more
                und = any(callname(x) in ('cv2.fisheye.undistortPoints', 'cv2.undistortPoints') for y in a for x in subterms(E.freeze(y)) if x.k == 'call')
                ctx.ob('vector', f'{what}: {e.name}', und, 'the coefficients are not used', where(e))
            continue
        ctx.ob('vector', f'{what}: {e.name} is a function of the model', fish == (k == 'fisheye'), f'the coefficients of the {k} model are given to {e.name}()', where(e))
        if fish == (k == 'fisheye'):
            vector(ctx, 'vector', f'{what}: {e.name}', k, t, e)


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st = list(x.a)
        while st:
            y = st.pop()
            if isinstance(y, tuple):
                st.extend(y)
            elif isinstance(y, T):
                todo.append(y)


def formula(ctx, k, pin, v):
    """The projection is the projection without distortion of the distorted normalised coordinates."""
    A = Algebra(LENS, dotlim=6, generic=True)
    p, q = A.val(pin), A.val(v)
    if not (isinstance(p, Arr) and isinstance(q, Arr)):
        ctx.ob('formula', k, False, 'the projection is not a pair of coordinates')
        return
    a0, a1 = p.get(0).atoms(), p.get(1).atoms()
    big = lambda s: {a for a in s if rows.POOL.keys[a][0] == 'big'}
    z = big(a0) & big(a1)
    if len(z) != 1 or len(big(a0)) != 2 or len(big(a1)) != 2:
        ctx.ob('formula', k, False, 'the projection without distortion is not of the form K (x/z, y/z, 1)')
        return
    Z = next(iter(z))
    X, Y = next(iter(big(a0) - z)), next(iter(big(a1) - z))
    at = lambda i: rows.Rat({(i,): rows.Fraction(1)})
    x, y = at(X) / at(Z), at(Y) / at(Z)
    c = {n: scalar(n) for n in COEF[k]}
    r2 = x * x + y * y
    if k == 'brown':
        rad = 1 + r2 * (c['k1'] + r2 * (c['k2'] + r2 * c['k3']))
        cases = [(None, (x * rad + 2 * c['p1'] * x * y + c['p2'] * (r2 + 2 * x * x), y * rad + c['p1'] * (r2 + 2 * y * y) + 2 * c['p2'] * x * y))]
    else:
        r = fn('sqrt', r2)
        th = fn('arctan', r)
        t2 = th * th
        td = lambda a, b: th * (1 + t2 * (c['k1'] + t2 * (c['k2'] + t2 * (a + t2 * b))))
        cases = [((a, b), tuple(w * td(c['k3'] if a else rat(0), c['k4'] if b else rat(0)) / r for w in (x, y))) for a in (0, 1) for b in (0, 1)]
    for case, (xd, yd) in cases:
        w = v
        if case is not None:
            zero = {n for n, nz in zip(('k3', 'k4'), case) if not nz}

            def f(t, zero=zero):
                if t.k == 'cmp' and t.a[0] in ('==', '!='):
                    s = {name_of(x2) for x2 in t.a[1:]} & {'k3', 'k4'}
                    if s and all(name_of(x2) or pyval(x2) in ((True, 0), (True, 0.0)) for x2 in t.a[1:]):
                        return const((t.a[0] == '==') == (s <= zero))
                if t.k == 'truth' and name_of(t.a[0]) in ('k3', 'k4'):
                    return const(name_of(t.a[0]) not in zero)
                if name_of(t) in zero:
                    return const(0.0)
                return None
            w = simp(v, f)
        qq = A.val(w)
        for i, what in ((0, 'column'), (1, 'row')):
            want = p.get(i).subst({X: xd * at(Z), Y: yd * at(Z)})
            nm = '' if case is None else ', k3 and k4 ' + ('zero', 'k4 only', 'k3 only', 'not zero')[case[0] * 2 + case[1]]
            ctx.ob('formula', f'{k} {what}{nm}', isinstance(qq, Arr) and qq.get(i).close(want), 'the distorted coordinate is not that of the documented model')


def name_of(t):
    """Name of the coefficient an element of a vector is."""
    if t.k == 'sym':
        return t.a[0]
    if t.k == 'sub' and pyval(t.a[1])[0] and isinstance(pyval(t.a[1])[1], int):
        e = elements(t.a[0])
        i = pyval(t.a[1])[1]
        if e and -len(e) <= i < len(e):
            return e[i]
    return None


def fits(ctx):
    for k in COEF:
        for how, given in (('name', COEF[k]), ('member', COEF[k]), ('member, some not given', COEF[k][1:2] + COEF[k][3:])):
            if not given and COEF[k]:
                continue
            E = scen.new(ctx.repo, **TYPES)
            t = const(k) if how == 'name' else member(E, 'CameraType', k)
            if t is None:
                continue
            ip = D(E, c1=D(E, cam_type=t, im_size=S('im_size'), focal_len=S('focal_len'), sensor_size=S('sensor_size'), cx=S('cx'), cy=S('cy'), **{c: S(c) for c in given}))
            gd = D(E, a__tif=S('gA'))
            v, _, ev = E.run(E.modvar(Q + 'fit', 'fit_frame_exterior'), [ip, gd], {})
            name = f'fit_frame_exterior, {k} by {how}'
            ctx.seen(E)
            if v is None:
                ctx.ob('fit', name, False, 'it has no normal exit')
                continue
            fz = E.freeze(v)
            ctx.ob('fit', name + ' uses the coefficients', set(given) <= syms(fz), f'the result does not depend on {sorted(set(given) - syms(fz))}')
            used = [e for e in ev if e.kind == 'call' and e.name.startswith('cv2.') and e.name.split('.')[-1] in POS]
            for e in used:
                s = e.name.split('.')[-1]
                i, *nm = POS[s]
                a = e.data['args']
                tt = a[i] if len(a) > i else next((e.data['kwargs'][n] for n in nm if n in e.data['kwargs']), NONE)
                tt = simp(E.freeze(tt), untuple)
                fish = e.name.startswith('cv2.fisheye.')
                if tt is NONE or elements(tt) is not None and all(x == 0 for x in elements(tt)):
                    if COEF[k]:
                        und = any(callname(x) in ('cv2.fisheye.undistortPoints', 'cv2.undistortPoints') for y in a for x in subterms(E.freeze(y)) if x.k == 'call')
                        ctx.ob('fit', f'{name}: {e.name}', und, 'it is done without the coefficients', where(e))
                    continue
                ctx.ob('fit', f'{name}: {e.name} is a function of the model', fish == (k == 'fisheye'), f'the coefficients of the {k} model are given to {e.name}()', where(e))
                if fish == (k == 'fisheye'):
                    vector(ctx, 'fit', f'{name}: {e.name}', k, tt, e, given)


CVDEF = {'cv2.remap': (3, 'interpolation'), 'cv2.resize': (5, 'interpolation')}


def interps(ctx):
    for n, (cv, rio) in INTERP.items():
        for how in ('name', 'member'):
            E = scen.new(ctx.repo, **TYPES)
            i = const(n) if how == 'name' else member(E, 'Interp', n)
            if i is None:
                ctx.ob('interp', f'{n} by {how}', False, 'there is no such value')
                continue
            for k, d, o in (('pinhole', TRUE, 'remap'), ('brown', FALSE, 'remap'), ('brown', FALSE, 'read'), ('pinhole', TRUE, 'world_boundary')):
                E.symtypes['z_any'] = ('ndarray',)
                cam = direct(E, k, d)
                if cam is None:
                    continue
                a, kw = scen.CAM_OPS[o]
                m = E.getattr_(cam, o)
                fv = scen.fn_of(E, m)
                st = E.st.fork()
                v, _, ev = E.run(m, list(a), {x: (i if x == 'interp' else y) for x, y in kw.items() if fv is None or x in fv.params()})
                E.st = st
                ctx.ob('interp', f'{k}.{o}, {n} by {how}', v is not None, 'the value is not accepted')
                for e in calls(ev, *CVDEF):
                    p, nm = CVDEF[e.name]
                    t = remap_args(e).get('interpolation') if e.name == 'cv2.remap' else arg(e, p, nm)
                    ctx.ob('interp', f'{k}.{o}, {n} by {how}: {e.name}', t is not None and t.k == 'ext' and t.a[0] == 'cv2.' + cv, f'the method used is {show(t)[:60] if t is not None else "the default"}', where(e))
            ctx.seen(E)
    for n, (cv, rio) in INTERP.items():
        for how in ('name', 'member'):
            if ctx.tier == 'quick' and (how == 'name') == (n in ('nearest', 'cubic')):
                continue
            E0 = scen.new(ctx.repo)
            i = const(n) if how == 'name' else member(E0, 'Interp', n)
            if i is None:
                continue
            o = interp_run(ctx.repo, 'ortho', i)
            ctx.seen(o.E, f'Ortho.process with interp {n}')
            ctx.ob('interp', f'Ortho.process, {n} by {how}', not refused(o), 'the value is not accepted')
            rp = [e for e in o.events if e.kind == 'call' and e.name.endswith('.reproject')]
            for e in rp:
                t = e.data['kwargs'].get('resampling')
                t = None if t is None else o.E.freeze(t)
                ctx.ob('interp', f'Ortho.process, {n} by {how}: reprojection of the DEM', t is not None and rio_name(t) == rio, f'the method used is {show(t)[:60] if t is not None else "the default"}', where(e))
            p = interp_run(ctx.repo, 'sharpen', i)
            ctx.seen(p.E, f'PanSharpen.process with interp {n}')
            ctx.ob('interp', f'PanSharpen.process, {n} by {how}', not refused(p), 'the value is not accepted')
            used = {rio_name(p.E.freeze(e.data['kwargs']['resampling'])) for e in p.events
                    if e.kind == 'call' and e.name.endswith(('WarpedVRT', '.reproject')) and 'resampling' in e.data['kwargs']}
            ctx.ob('interp', f'PanSharpen.process, {n} by {how}: upsampling', rio in used and used <= {rio, 'average'}, f'the methods used are {sorted(map(str, used))}')


def refused(r):
    return r.st_end is None


def rio_name(t):
    if t.k == 'ext' and t.a[0].startswith('rasterio.') and '.Resampling.' in t.a[0]:
        return t.a[0].rsplit('.', 1)[-1]
    if t.k == 'sub' and t.a[0].k == 'ext' and t.a[0].a[0].endswith('Resampling') and pyval(t.a[1])[0]:
        return str(pyval(t.a[1])[1])
    if t.k == 'attr' and t.a[0].k == 'ext' and t.a[0].a[0].endswith('Resampling'):
        return t.a[1]
    return None


def interp_run(repo, what, i):
    if what == 'ortho':
        E = scen.new(repo)
        cam, _, _ = scen.camera(E, 'pinhole', TRUE)
        o, _, _ = E.run(E.modvar(Q + 'ortho', 'Ortho'), [S('src_file'), S('dem_file'), cam], dict(crs=S('crs'), dem_band=S('dem_band')))
        v, esc, ev = E.run(E.getattr_(o, 'process'), [S('out_file')], dict(interp=i, dem_interp=i))
        return scen.Run(E, 'Ortho.process', v, esc, ev)
    E = scen.new(repo)
    o, _, _ = E.run(E.modvar(Q + 'pan_sharp', 'PanSharpen'), [S('pan_file'), S('ms_file')])
    v, esc, ev = E.run(E.getattr_(o, 'process'), [S('out_file')], dict(interp=i))
    return scen.Run(E, 'PanSharpen.process', v, esc, ev)
