"""C30: orientation conversions keep the orientation of the camera."""
from .pose import *


def check(ctx):
    ctx.rule('orientation', 'the omega, phi and kappa made from other descriptions of the orientation give the same camera to world rotation', 8)
    for p in poses(ctx.repo):
        ctx.seen(p.E, p.label)
        r, o, bad = found(p)
        bad = bad or getattr(p, 'bad', None) or ('the angles cannot be resolved' if o is None else None)
        if bad is None:
            w = [n for n, x, y in zip(FIELDS['opk'], o, p.want) if not angle_eq(x, y)]
            bad = f'{", ".join(w)} is not that of the rotation of the camera' if w else None
        ctx.ob('orientation', p.label, bad is None, bad or '')
