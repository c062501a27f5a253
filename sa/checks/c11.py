"""C11: operations of a camera without exterior parameters never return (reachability of their normal exit)."""
from .common import *
from .. import scen
from ..scen import Q

OPS = ('world_to_pixel', 'pixel_to_world_z', 'world_boundary', 'remap')
INIT = Q + 'errors.CameraInitError'
X, O = S('xyz3'), S('opk3')
HOW = [('neither', dict(), None), ('no orientation', dict(xyz=X), None), ('no position', dict(opk=O), None), ('both None', dict(xyz=NONE, opk=NONE), None),
       ('updated without orientation', True, (X, NONE)), ('updated without position', True, (NONE, O))]


def prep(args):
    """Update the camera, False if that is refused."""
    if args is None:
        return None

    def f(E, cam):
        st = E.st.fork()
        E.run(E.getattr_(cam, 'update'), list(args))
        if E.st is None:
            E.st = st
            return False
        return True
    return f


def failed(run):
    """Reasons why the run is not refused with the camera initialisation error."""
    out = []
    if run.value is not None:
        out.append(('it can return ' + show(run.E.freeze(run.value), 2)[:100], ''))
    if not any(x.cls == INIT for x in run.escapes):
        out.append(('it never raises CameraInitError', ''))
    for x in run.escapes:
        if x.cls in ('builtins.TypeError', 'builtins.AttributeError', 'builtins.IndexError', 'builtins.KeyError'):
            out.append((f'it raises {x.cls} at {x.loc}', str(x.loc)))
    return out


def check(ctx):
    ctx.rule('refused', 'the operation of a camera without position or orientation has no normal exit, raises CameraInitError, and fails in no other way for the missing parameters', 40)
    ctx.rule('usable', 'the same operation of a camera with position and orientation has a normal exit and does not raise CameraInitError', 10)
    ctx.rule('ortho', 'orthorectification with such a camera is refused', 3)
    types = dict(src_file=('DatasetReader',), dem_file=('DatasetReader',), out_file=('OpenFile',))
    for k in scen.FRAME:
        for d in (None,) if ctx.tier == 'quick' else (None, TRUE, FALSE):
            for how, init, args in HOW:
                for r in scen.camera_ops(ctx.repo, k, distort=d, init=init, ops=OPS, prep=prep(args)):
                    ctx.use(r)
                    bad = failed(r)
                    ctx.ob('refused', f'{r.label} ({how})', not bad, '; '.join(b[0] for b in bad)[:300], bad[0][1] if bad else '')
            for how, init, args in (('constructed with both', True, None), ('updated with both', dict(), (X, O))):
                for r in scen.camera_ops(ctx.repo, k, distort=d, init=init, ops=OPS, prep=prep(args)):
                    ctx.use(r)
                    ok = r.value is not None and not any(x.cls == INIT for x in r.escapes)
                    ctx.ob('usable', f'{r.label} ({how})', ok, 'it cannot return' if r.value is None else 'it can raise CameraInitError')
        E = scen.new(ctx.repo, **types)
        cam, _, _ = scen.camera(E, k, init=dict())
        v, esc, ev = E.run(E.modvar(Q + 'ortho', 'Ortho'), [S('src_file'), S('dem_file'), cam], dict(crs=S('crs'), dem_band=S('dem_band')))
        r = ctx.use(scen.Run(E, f'Ortho with {k} camera', v, esc, ev))
        if v is not None:
            r = ctx.use(scen.method(ctx.repo, f'Ortho.process with {k} camera', v, 'process', E, [S('out_file')]))
        bad = [b for b in failed(r) if 'TypeError' not in b[0]]
        ctx.ob('ortho', f'{r.label}', not bad, '; '.join(b[0] for b in bad)[:300], bad[0][1] if bad else '')
