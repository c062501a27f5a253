"""C13: dependence of images, projections and boundaries on the distortion coefficients and on the undistorted intrinsic matrix."""
from .common import *
from .. import scen
from ..scen import Q
from .c12 import coeffs

COEF = {'k1', 'k2', 'k3', 'p1', 'p2', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'}
TYPES = dict(src_file=('DatasetReader',), interp=('enumstr',), clip=('bool',), num_pts=('int',), alpha=('float',))
KW = dict(xyz=S('xyz3'), opk=S('opk3'), alpha=S('alpha'))


def made(t):
    """What a library function returns (OpenCV) is not None."""
    if t.k == 'cmp' and t.a[0] in ('is', 'isnot', 'is not') and NONE in t.a[1:]:
        x = t.a[1] if t.a[2] is NONE else t.a[2]
        while x.k == 'sub':
            x = x.a[0]
        if (callname(x) or '').startswith('cv2.'):
            return FALSE if t.a[0] == 'is' else TRUE
    if t.k == 'truth' and t.a[0].k == 'call' and (callname(t.a[0]) or '').endswith('initUndistortRectifyMap'):
        return TRUE
    return None


def outside(ts, stops):
    """(symbols reached without entering the terms `stops`, stops that are reached)."""
    seen, found, todo = set(), set(), list(ts)
    names = set()
    ids = {t.id for t in stops}
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.id in ids:
            found.add(t)
            continue
        if t.k == 'sym':
            names.add(t.a[0])
        todo.extend(kids(t))
    return names, found


def kids(t):
    out = []

    def go(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for x in t.a:
        go(x)
    return out


class Ops:
    def __init__(self, repo, kind, distort):
        self.E = E = scen.new(repo, **TYPES)
        self.cam, _, _ = scen.camera(E, kind, init=dict(KW, distort=distort))
        # values the camera derived from alpha: the intrinsic matrix of the undistorted image and its inverse
        self.U = [x for v in E.h(self.cam).data.values() for x in parts(E.freeze(v)) if 'alpha' in syms(x) and x.k != 'sym']

    def run(self, name, **over):
        a, k = scen.CAM_OPS[name]
        m = self.E.getattr_(self.cam, name)
        fv = scen.fn_of(self.E, m)
        ps = fv.params() if fv is not None else None
        kw = {n: v for n, v in k.items() if ps is None or n in ps}
        a = [over.get(x.a[0], x) for x in a]
        st = self.E.st.fork()
        v, _, ev = self.E.run(m, a, kw)
        fz = self.E.freeze
        val = None if v is None else fz(v)
        evs = [(e, [fz(x) for x in e.data['args']], {n: fz(x) for n, x in e.data['kwargs'].items()}) for e in ev
               if e.kind == 'call' and e.name.startswith('cv2.')]
        self.E.st = st
        return val, evs


def parts(t):
    return list(t.a) if t.k == 'tuple' else [t]


def remaps(evs):
    return [(e, a, k) for e, a, k in evs if e.name == 'cv2.remap']


def check(ctx):
    ctx.rule('full', 'with distortion, projections, boundaries and resampling use the distortion coefficients and nothing derived for the undistorted image; the image is used as read', 15)
    ctx.rule('undistorted', 'without distortion, projections and resampling use the coefficients only through the intrinsic matrix of the undistorted image, and the image is undistorted to that same matrix', 15)
    ctx.rule('pinhole', 'for a camera without distortion both settings give the same results', 4)
    ctx.rule('ortho', 'orthorectification resamples the image that the camera read, and leaves the setting alone', 4)
    kinds = ('brown', 'opencv', 'fisheye')
    for k in kinds:
        full, und = Ops(ctx.repo, k, TRUE), Ops(ctx.repo, k, FALSE)
        ctx.seen(full.E, f'{k} camera with distortion')
        ctx.seen(und.E, f'{k} camera without distortion')
        pb = {}
        for how, o in (('full', full), ('undistorted', und)):
            name = f'{k}, distort={how == "full"}'
            is_full = how == 'full'

            def model(what, terms, extra=()):
                """The terms use the model of the setting."""
                terms = [t for t in terms if t is not None]
                if not terms:
                    ctx.ob(how, f'{name}: {what}', False, 'no value')
                    return
                n, found = outside(terms, list(o.U) + list(extra))
                c = n & COEF
                if is_full:
                    ctx.ob(how, f'{name}: {what}', bool(c) and 'alpha' not in n and not (found & set(o.U)),
                           'it uses the model of the undistorted image' if c else 'it does not use the distortion coefficients')
                else:
                    ctx.ob(how, f'{name}: {what}', not c and bool(found & set(o.U)),
                           f'it uses the distortion coefficients {sorted(c)[:3]}' if c else 'it does not use the intrinsic matrix of the undistorted image')
            w2p, ev = o.run('world_to_pixel')
            model('world_to_pixel', [w2p] + [x for _, a, kw in ev for x in list(a) + list(kw.values())])
            p2w, ev = o.run('pixel_to_world_z')
            model('pixel_to_world_z', [p2w])
            p, _ = o.run('pixel_boundary')
            n, found = outside([p], o.U) if p is not None else (set(), set())
            if is_full:
                ctx.ob(how, f'{name}: pixel_boundary', p is not None and not (n & COEF) and 'alpha' not in n and not found, 'the boundary of the image as read is moved')
            else:
                fw, bw = outside([w2p], o.U)[1], outside([p2w], o.U)[1]
                ctx.ob(how, f'{name}: pixel_boundary', bool(n & COEF) and bool(found & fw) and not found & (bw - fw),
                       'the boundary is not undistorted with the model of the camera and the intrinsic matrix of the undistorted image')
            for zn, zt in (('z', ('float',)), ('surface', ('ndarray',))):
                o.E.symtypes['z_any'] = zt
                wb, _ = o.run('world_boundary')
                if wb is None:
                    ctx.ob(how, f'{name}: world_boundary ({zn})', False, 'no value')
                    continue
                ps = [p] + [x for x, _ in leaves(p)] if p is not None else []
                n, found = outside([wb], ps + [x.a[0] for x in ps if x.k == 'attr' and x.a[1] == 'T'])
                ctx.ob(how, f'{name}: world_boundary ({zn}) of the pixel boundary', bool(found), 'it is not computed from the pixel boundary of the camera')
                model(f'world_boundary ({zn})', [wb], [p])
            o.E.symtypes['z_any'] = ('float',)
            im, ev = o.run('read')
            rm = remaps(ev)
            if is_full:
                ctx.ob(how, f'{name}: read', not rm and im is not None and not (syms(im) & (COEF | {'alpha'})), 'the image is changed by the distortion model', where(rm[0][0]) if rm else '')
            else:
                ok = bool(rm)
                why = 'the image is not undistorted'
                for e, a, kw in rm:
                    n, found = outside(a[1:] + list(kw.values()), o.U)
                    used, f2 = outside([w2p], o.U)
                    if not (n & COEF):
                        ok, why = False, 'the undistortion does not use the distortion coefficients'
                    elif not (found & f2):
                        ok, why = False, 'the image is undistorted to another intrinsic matrix than the one used for projection'
                inits = [(e, a, kw) for e, a, kw in ev if e.name.endswith('initUndistortRectifyMap')]
                for e, a, kw in inits:
                    if a and 'alpha' in syms(a[0]):
                        ok, why = False, 'the source intrinsic matrix is that of the undistorted image'
                raw = [x for x, _ in leaves(simp(im, made)) if not (syms(x) & COEF)]
                if ok and raw:
                    ok, why = False, 'the image is not always undistorted'
                ctx.ob(how, f'{name}: read', ok, why, where(rm[0][0]) if rm else '')
            v, ev = o.run('remap')
            rm = remaps(ev)
            ctx.ob(how, f'{name}: remap is done', bool(rm), 'no resampling')
            for e, a, kw in rm:
                model('remap coordinates', a[1:3] + [kw[x] for x in ('map1', 'map2') if x in kw])
    a, b = Ops(ctx.repo, 'pinhole', TRUE), Ops(ctx.repo, 'pinhole', FALSE)
    for n in ('world_to_pixel', 'pixel_to_world_z', 'read'):
        (x, ev1), (y, ev2) = a.run(n), b.run(n)
        ctx.ob('pinhole', f'pinhole.{n}', x is not None and y is not None and same(x, y) and not remaps(ev1) and not remaps(ev2) and 'alpha' not in syms(x),
               'the results differ: ' + ' / '.join(show(t, 3)[:100] for t in differ(x, y)) if x is not None and y is not None else 'no value')
    ctx.ob('pinhole', 'pinhole camera', not a.U and not b.U, 'the camera has an undistorted intrinsic matrix that depends on alpha')
    for k in kinds:
        for d in (TRUE, FALSE):
            r = ctx.use(ortho(ctx.repo, k, d))
            sets = [e for e in list(r.events) + list(r.init.events) if e.kind == 'setattr' and e.data.get('target') is r.cam and e.name.lstrip('_') in ('distort', 'alpha')]
            ctx.ob('ortho', f'{r.label} {k}, distort={show(d)}: setting', not sets, 'the setting of the camera is changed', where(sets[0]) if sets else '')
            rm = [e for e in r.events if e.kind == 'call' and e.name == 'cv2.remap']
            und = [e for e in rm if und_maps(r.E, e)]
            ctx.ob('ortho', f'{r.label} {k}, distort={show(d)}: image', bool(rm) and bool(und) == (d is FALSE) and len(rm) > len(und),
                   'the image is ' + ('not ' if not und else '') + 'undistorted', where(rm[0]) if rm else '')


def und_maps(E, e):
    t = [E.freeze(x) for x in e.data['args'][1:]]
    return any(x.k == 'call' and (callname(x) or '').endswith('initUndistortRectifyMap') for y in t for x in walk(y))
