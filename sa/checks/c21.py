"""C21: angles are converted to radians exactly once, and keep their order."""
from .pose import *
from .c28 import W, rotation
from . import pose


def trig(x, out):
    """Arguments of the trigonometric functions a scalar is made of."""
    for a in (x.atoms() if isinstance(x, Rat) else ()):
        k = rows.POOL.keys[a]
        keys(k, out)
    return out


def keys(k, out):
    if isinstance(k, tuple) and k:
        if k[0] == 'fn' and k[1] in ('cos', 'sin', 'tan'):
            v = unkey(k[2])
            if v is not None and not any(v == o for o in out):
                out.append(v)
        elif k[0] == 'r':
            v = unkey(k)
            if v is not None:
                trig(v, out)
        else:
            for q in k[1:]:
                keys(q, out)


def check(ctx):
    ctx.rule('angles', 'the angles of the exterior parameters, or the arguments of the rotation they are made from, are the angles of the file in radians', 8)
    ctx.rule('order', 'omega, phi and kappa, and roll, pitch and yaw, are each used as such', 8)
    ctx.rule('camera', 'the rotation of a camera is made of the sines and cosines of its angles, unchanged', 4)
    ctx.rule('legacy', 'the legacy command passes cameras its angles in radians', 1)
    for p in poses(ctx.repo):
        if p.kind not in ('opk', 'rpy'):
            continue
        ctx.seen(p.E, p.label)
        r, o, bad = found(p)
        if bad or o is None:
            ctx.ob('angles', p.label, False, bad or 'the angles cannot be resolved')
            continue
        if p.kind == 'opk':
            ok = all(any(x == q for q in p.angles) for x in o)
            ctx.ob('angles', p.label, ok, '' if ok else f'the angles are ({", ".join(str(x)[:60] for x in o)})')
            same = all(x == q for x, q in zip(o, p.angles))
            ctx.ob('order', p.label, same or not ok, '' if same else 'omega, phi and kappa are exchanged')
            continue
        args = []
        for x in o:
            trig(x, args)
        args = [x for x in args if x.const() is None]
        ok = len(args) == 3 and all(any(x == q or x == -q for q in p.angles) for x in args)
        ctx.ob('angles', p.label, ok, '' if ok else f'the angles the rotation is made from are ({", ".join(str(x)[:60] for x in args)})')
        if all(angle_eq(x, y) for x, y in zip(o, p.want)):
            ctx.ob('order', p.label, True)
        elif ok:
            other = [q for q in permutations(p.angles) if list(q) != list(p.angles) and all(angle_eq(x, y) for x, y in zip(o, opk_of(rpy_matrix(*q))))]
            ctx.ob('order', p.label, not other, 'roll, pitch and yaw are exchanged' if other else '')
    E, l = legacy(ctx.repo)
    ctx.seen(E, 'simple-ortho')
    for n, x, o, e in l:
        ok = o is not None and all(q == fn('radians', scalar('f_' + m)) for q, m in zip(o, FIELDS['opk']))
        ctx.ob('legacy', n, ok, '' if ok else f'the angles are ({", ".join(str(q)[:60] for q in o or [])})', where(e))
    for kind in ('pinhole', 'brown', 'opencv', 'fisheye'):
        for how in ('constructor', 'update()'):
            E = scen.new(ctx.repo)
            opk = tup(S('om'), S('ph'), S('ka'))
            cls = E.modvar(Q + 'camera', scen.CAMS[kind])
            kw = dict(im_size=tup(S('w'), S('h')), focal_len=S('foc'))
            xyz = tup(S('X0'), S('Y0'), S('Z0'))
            cam, _, _ = E.run(cls, [], dict(kw, xyz=xyz, opk=opk) if how == 'constructor' else kw)
            if cam is not None and how != 'constructor':
                E.run(E.getattr_(cam, 'update'), [xyz, opk], {})
            lab = f'{kind} camera, {how}'
            ctx.seen(E, lab)
            A = Algebra(lim=FULL, dotlim=FULL, generic=True)
            args = []
            try:
                v, _, _ = (None, 0, 0) if cam is None else E.run(E.getattr_(cam, 'world_to_pixel'), [W], {})
                for x in subterms(E.freeze(v)) if v is not None else ():
                    if x.k == 'call' and callname(x) in ('numpy.cos', 'numpy.sin', 'math.cos', 'math.sin') and x.a[1]:
                        q = unlazy(A.val(x.a[1][0]))
                        if syms(x) & {'om', 'ph', 'ka'}:
                            args.append(q)
            except TooBig:
                pass
            want = [scalar(n) for n in ('om', 'ph', 'ka')]
            ok = bool(args) and all(isinstance(q, Rat) and any(q == w or q == -w for w in want) for q in args) and all(any(q == w or q == -w for q in args) for w in want)
            ctx.ob('camera', lab, ok, '' if ok else f'the rotation is made from ({", ".join(str(q)[:60] for q in args[:4])})')
