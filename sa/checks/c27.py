"""C27: options given by name or as enumeration value have the same effect, and every default is accepted (relational comparison of value graphs)."""
from .. import scen
from ..scen import Q, S
from ..terms import *
from .common import *

DTYPES = ('uint8', 'uint16', 'int16', 'float32', 'float64')
CAMERA = ('read', 'remap', 'world_boundary')
PROGRAM = ('builtins.TypeError', 'builtins.AttributeError', 'builtins.KeyError', 'builtins.IndexError', 'builtins.NameError', 'builtins.UnboundLocalError')


class Canon:
    """Hashes of terms that do not depend on object numbers, with enumeration members replaced by their values."""

    def __init__(self):
        self.num, self.memo = {}, {}

    def h(self, t):
        if isinstance(t, tuple):
            return hash(('tuple',) + tuple(self.h(x) for x in t))
        if not isinstance(t, T):
            return hash(repr(t))
        r = self.memo.get(t)
        if r is None:
            if t.k == 'obj':
                r = hash(('obj', t.a[0], self.num.setdefault(t, len(self.num))))
            elif t.k == 'enum':
                r = self.h(t.a[2])
            else:
                r = hash((t.k,) + tuple(self.h(x) for x in t.a))
            self.memo[t] = r
        return r


def effects(r):
    """What a run does: external calls with their arguments, the result, and the exceptions."""
    c, out = Canon(), []
    for e in r.events:
        if e.kind == 'call':
            out.append(((e.name, c.h((tuple(e.data.get('args', ())), tuple(sorted(dict(e.data.get('kwargs', {})).items()))))), e))
    return out, (c.h(r.value) if r.value is not None else None), {str(x.cls) for x in r.escapes}


def compare(ctx, what, a, b):
    """a: run with the enumeration value, b: run with its name."""
    ctx.use(a)
    ctx.use(b)
    if (a.value is None) != (b.value is None):
        bad = b if b.value is None else a
        at = next((str(x.loc) for x in bad.escapes if broken(x)), '')
        ctx.ob('forms', what, False, 'given ' + ('by name' if b.value is None else 'as enumeration value') + ' the operation does not return', at)
        return
    (ea, va, xa), (eb, vb, xb) = effects(a), effects(b)
    sa, sb = {k for k, _ in ea}, {k for k, _ in eb}
    d = [e for k, e in eb if k not in sa] + [e for k, e in ea if k not in sb]
    ok = not d and va == vb and xa == xb
    why = f'the call of {d[0].name} differs with the form of the option' if d else 'the result differs' if va != vb else f'exceptions differ: {sorted(xa ^ xb)}'
    ctx.ob('forms', what, ok, '' if ok else why, where(d[0]) if d else '')


def broken(x):
    """An exception of the interpreter itself, not one that the code raises on purpose."""
    return str(x.cls) in PROGRAM and not x.implicit and isinstance(x.val, T) and x.val.k in ('const', 'npdtype')


def cam_run(repo, kind, op, E=None, dtype=None, **kw):
    E = E or scen.new(repo)
    if dtype:
        E.dtypes.update({'im_array': dtype, '~read': dtype})
    cam, _, _ = scen.camera(E, kind)
    v, esc, ev = E.run(E.getattr_(cam, op), list(scen.CAM_OPS[op][0]), kw)
    return scen.Run(E, f'{kind}.{op}', v, esc, ev)


def process(repo, op, init, kw):
    E = scen.new(repo)
    if op == 'Ortho':
        cam, _, _ = scen.camera(E, 'pinhole')
        o, e0, _ = E.run(E.modvar(Q + 'ortho', 'Ortho'), [S('src_file'), S('dem_file'), cam], init)
    else:
        o, e0, _ = E.run(E.modvar(Q + 'pan_sharp', 'PanSharpen'), [S('pan_file'), S('ms_file')], init)
    if o is None:
        return scen.Run(E, op, None, e0, [])
    v, esc, ev = E.run(E.getattr_(o, 'process'), [S('out_file')], kw)
    return scen.Run(E, f'{op}.process', v, e0 + esc, ev)


def defaults(ctx, what, r):
    ctx.use(r)
    bad = [x for x in r.escapes if broken(x)]
    ctx.ob('defaults', what, r.value is not None and not bad, '' if r.value is not None and not bad else
           f'{str(bad[0].cls).split(".")[-1]} ({show(bad[0].val)})' if bad else 'the operation does not return', str(bad[0].loc) if bad else '')


def check(ctx):
    ctx.rule('forms', 'an option given by name and as enumeration value leads to the same external calls, result and exceptions', 10)
    ctx.rule('defaults', 'operations called without their optional arguments return, and never fail in the interpreter (None or a missing key used as a value)', 10)
    thorough = ctx.tier == 'thorough'
    E0 = scen.new(ctx.repo)
    mem = {n: E0.enum_members(Q + 'enums.' + n) for n in ('Interp', 'Compress', 'Driver', 'CameraType')}
    # ---- names and members
    for kind in ('pinhole', 'brown', 'rpc') + (('opencv', 'fisheye') if thorough else ()):
        for op in CAMERA:
            for m in mem['Interp'] if op != 'world_boundary' or thorough else mem['Interp'][:2]:
                compare(ctx, f'{kind} camera, {op}(interp={m.a[1]})', *[cam_run(ctx.repo, kind, op, interp=f(m))
                                                                     for f in (lambda m: m, lambda m: m.a[2])])
    n = max(len(mem['Interp']), 1) if thorough else 2
    for op in ('Ortho', 'PanSharpen'):
        for i in range(n):
            pick = dict(interp=mem['Interp'][i % len(mem['Interp'])], compress=mem['Compress'][i % len(mem['Compress'])], driver=mem['Driver'][i % len(mem['Driver'])])
            if op == 'Ortho':
                pick['dem_interp'] = mem['Interp'][(i + 1) % len(mem['Interp'])]
            compare(ctx, f'{op}.process({", ".join(f"{k}={v.a[1]}" for k, v in sorted(pick.items()))})',
                    *[process(ctx.repo, op, {}, {k: f(v) for k, v in pick.items()}) for f in (lambda m: m, lambda m: m.a[2])])
    for d in mem['Driver']:
        for c in mem['Compress']:
            for dt in ('uint8', 'float32'):
                compare(ctx, f'create_profile({d.a[1]}, {dt}, {c.a[1]})',
                        *[scen.api(ctx.repo, 'create_profile', 'common', 'create_profile', [f(d), S('shape3'), const(dt)], dict(compress=f(c))) for f in (lambda m: m, lambda m: m.a[2])])
    for m in mem['CameraType']:
        a = [S('im_size'), S('rpc')] if m.a[1] == 'rpc' else [S('im_size'), S('focal_len')]
        compare(ctx, f'create_camera({m.a[1]})', *[scen.api(ctx.repo, 'create_camera', 'camera', 'create_camera', [f(m)] + a) for f in (lambda m: m, lambda m: m.a[2])])
        if m.a[1] != 'rpc':
            rs = []
            for f in (lambda m: m, lambda m: m.a[2]):
                E = scen.new(ctx.repo)
                p = E.alloc('dict', [(const('cam'), E.alloc('dict', [(const('cam_type'), f(m)), (const('im_size'), S('im_size')), (const('focal_len'), S('focal_len'))]))])
                rs.append(scen.api(ctx.repo, 'write_int_param', 'param_io', 'write_int_param', [S('wfile'), p], E=E))
            compare(ctx, f'write_int_param(cam_type={m.a[1]})', *rs)
    # ---- defaults
    for kind in ('pinhole', 'brown', 'rpc') + (('opencv', 'fisheye') if thorough else ()):
        for op in ('world_to_pixel', 'pixel_to_world_z', 'pixel_boundary', 'world_boundary'):
            defaults(ctx, f'{kind} camera, {op}', cam_run(ctx.repo, kind, op))
        for op in ('read', 'remap'):
            for dt in DTYPES:
                defaults(ctx, f'{kind} camera, {op} of {dt}', cam_run(ctx.repo, kind, op, dtype=dt))
    for op in ('Ortho', 'PanSharpen'):
        defaults(ctx, f'{op}.process', process(ctx.repo, op, {}, {}))
    for w in scen.WRITERS:
        defaults(ctx, w, scen.writer(ctx.repo, w, overwrite=None))
    for d in mem['Driver']:
        for dt in DTYPES:
            defaults(ctx, f'create_profile({d.a[1]}, {dt})', scen.api(ctx.repo, 'create_profile', 'common', 'create_profile', [d, S('shape3'), const(dt)]))
