"""C02: a request refused for its arguments leaves existing outputs untouched."""
from .common import *

FILES = {'src_file', 'dem_file', 'pan_file', 'ms_file', 'out_file', 'out_dir', 'overwrite', 'progress'}
# library calls that refuse unsuitable arguments (and not for the state of a file)
REFUSING = ('rasterio.crs.CRS.from_string', 'rasterio.crs.CRS.from_user_input', 'rasterio.crs.CRS.from_epsg', 'rasterio.crs.CRS.from_wkt', 'rasterio.crs.CRS.from_dict',
            'rasterio.crs.CRS.from_authority', 'rasterio.crs.CRS.from_proj4', 'rasterio.warp.transform', 'rasterio.warp.transform_bounds', 'rasterio.warp.transform_geom',
            'rasterio.warp.reproject', 'rasterio.warp.calculate_default_transform', 'numpy.dtype', 'rasterio.dtypes.check_dtype', 'rasterio.rpc.RPC',
            'rasterio.enums.Resampling')
TRANSPARENT = {'builtins.len', 'builtins.str', 'builtins.int', 'builtins.float', 'builtins.abs', 'builtins.min', 'builtins.max', 'builtins.any', 'builtins.all', 'builtins.list',
               'builtins.tuple', 'builtins.set', 'numpy.array', 'numpy.asarray', 'numpy.any', 'numpy.all', 'numpy.isscalar', 'numpy.absolute', 'numpy.isnan', 'numpy.dtype',
               'numpy.amin', 'numpy.amax', 'numpy.min', 'numpy.max', 'numpy.isin', 'numpy.logical_or', 'numpy.logical_and', '.any', '.all', '.lower', '.upper', '.strip', '.astype'}


def direct(t, out=None, seen=None):
    """Argument symbols that a condition tests themselves, not through what was read or computed with them."""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    if t.k == 'sym':
        if not t.a[0].startswith('~') and t.a[0] not in FILES:
            out.add(t.a[0])
        return out
    if t.k == 'call':
        if callname(t) in TRANSPARENT:
            for c in list(t.a[1]) + ([t.a[0].a[0]] if t.a[0].k == 'attr' else []):
                direct(c, out, seen)
        return out
    if t.k == 'ite':
        direct(t.a[1], out, seen)
        direct(t.a[2], out, seen)
        return out
    if t.k == 'sub' and not is_const(t.a[1]):
        return out
    if t.k in ('cmp', 'not', 'and', 'or', 'truth', 'isinst', 'bin', 'un', 'neg', 'enumconv', 'sub', 'tuple', 'list', 'star', 'starred', 'elem', 'copyof'):
        for c in children(t):
            direct(c, out, seen)
    return out


OPTS = {'resolution', 'interp', 'dem_interp', 'per_band', 'write_mask', 'dtype', 'compress', 'build_ovw', 'creation_options', 'driver', 'pan_index', 'ms_indexes', 'weights',
        'crs', 'int_param', 'ext_param', 'rpc_param', 'gcps', 'gcps_any'}
INIT = {'crs', 'dem_band'}         # arguments of the constructor, refused there


def refusal_class(E, c):
    m = E.exc_mro(c)
    return any(x.startswith('orthority.errors.') for x in m) and 'builtins.Warning' not in m


def after_write(run, ws, e):
    for w, f, d in ws:
        if w.i < e.i and not impossible(tuple(w.guards) + tuple(e.guards), lambda t: None):
            return w, d
    return None


def run_check(ctx, run, writer_fn=False):
    E = run.E
    opts = OPTS - (INIT if 'process' in run.label else set())
    ws = write_effects(run)
    ctx.ob('opened', run.label, bool(ws), 'no place where the output is opened was found', run.label)
    if not ws:
        return
    i0 = min(w.i for w, _, _ in ws)
    n = 0
    for e in run.events:
        if e.i <= i0:
            continue
        bad = None
        if e.kind == 'raise':
            n += 1
            if e.name in ('builtins.FileExistsError',) or not (e.data.get('implicit') is None or not e.data['implicit']):
                continue
            if refusal_class(E, e.name):
                bad = f'{e.name} is raised'
            elif e.name in ('builtins.ValueError', 'builtins.TypeError', 'builtins.KeyError', 'builtins.IndexError') and e.guards:
                d = direct(e.guards[-1]) & opts
                if d:
                    bad = f'{e.name} is raised for argument {", ".join(sorted(d))}'
        elif e.kind == 'enumconv':
            n += 1
            v = e.data['value']
            if any(y.k == 'sym' and not y.a[0].startswith('~') for y in walk(E.freeze(v))):
                bad = f'the value of an option is converted to {e.name} (which refuses unknown values)'
        elif e.kind == 'call' and e.name in REFUSING:
            n += 1
            if e.name.startswith('rasterio.crs') and all(is_const(a) for a in e.data.get('args', ())):
                continue
            a = list(e.data.get('args', ())) + list((e.data.get('kwargs') or {}).values())
            if any(direct(E.freeze(x)) & opts for x in a if isinstance(x, T)) or writer_fn:
                bad = f'{e.name} is applied to an argument (and refuses unsuitable ones)'
        elif writer_fn and e.kind == 'getitem':
            t = e.data.get('target')
            if t is not None and any('param' in s or 'gcp' in s for s in syms(E.freeze(t))):
                n += 1
                bad = 'a field of the parameters is looked up'
        if bad:
            w = after_write(run, ws, e)
            if w:
                ctx.ob('before-write', f'{run.label}:{where(e)}:{e.kind}:{e.name}', False, f'{bad} at {e.loc} after {w[1]} at {w[0].loc}', where(e))
    ctx.ob('before-write', run.label, True)
    ctx.notes.append(f'{run.label}: {n} refusing constructs after the first write-open examined')


def check(ctx):
    ctx.rule('opened', 'each writing operation opens its output at an identified place', 8)
    ctx.rule('before-write', 'after the first place where an output can have been created, truncated or removed there is no refusal of an argument: no OrthorityError, '
             'no ValueError / TypeError / KeyError decided by an argument itself, no conversion of an option value, no CRS or coordinate conversion of an argument', 8)
    runs = [(ortho(ctx.repo, k), False) for k in (KINDS if ctx.tier == 'thorough' else ('pinhole', 'brown', 'rpc'))]
    runs.append((sharpen(ctx.repo), False))
    runs += [(writer(ctx.repo, w), True) for w in scen.WRITERS]
    runs += [(r, False) for r in factories(ctx.repo) if r.label.endswith('.write_param')]
    for r, w in runs:
        ctx.use(r)
        run_check(ctx, r, w)
    # the options are refused at all, before the output is opened
    ctx.rule('validated', 'every option with a fixed set of values is converted or tested before the output is opened', 6)
    for r, _ in runs:
        if not (r.label.startswith('Ortho.process') or r.label == 'PanSharpen.process'):
            continue
        ws = write_effects(r)
        if not ws:
            continue
        i0 = min(w.i for w, _, _ in ws)
        opts = ['interp', 'driver', 'compress', 'dtype'] + (['dem_interp'] if r.label.startswith('Ortho') else [])
        for o in opts:
            ok = any(e.i < i0 and e.kind == 'enumconv' and o in syms(r.E.freeze(e.data['value'])) for e in r.events) or \
                any(e.i < i0 and e.kind == 'raise' and refusal_class(r.E, e.name) and any(o in direct(g) for g in e.guards) for e in r.events)
            ctx.ob('validated', f'{r.label}:{o}', ok, f'option {o} is neither converted to its enumeration nor tested before the output is opened', r.label)
