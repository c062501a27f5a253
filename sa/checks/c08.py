"""C08: command line options reach the API arguments they document."""
from .common import *
from .. import scen
from ..scen import Q

F, I, G = 'factory.FrameCameras.__init__', 'factory.FrameCameras.from_images', 'ortho.Ortho.__init__'
P, W, RF = 'ortho.Ortho.process', '.write_param', 'factory.RpcCameras.refine'
SP = 'pan_sharp.PanSharpen.process'
# option -> [(API function, parameter, key)] that must receive its value
ORTHO_OUT = {
    'res': [(P, 'resolution')], 'interp': [(P, 'interp')], 'dem-interp': [(P, 'dem_interp')], 'per-band': [(P, 'per_band')],
    'write-mask': [(P, 'write_mask')], 'dtype': [(P, 'dtype')], 'compress': [(P, 'compress')], 'build-ovw': [(P, 'build_ovw')],
    'creation-option': [(P, 'creation_options')], 'driver': [(P, 'driver')], 'overwrite': [(P, 'overwrite'), (W, 'overwrite')],
    'out-dir': [(W, 'out_dir'), (P, 'ortho_file', 'dir')],
}
CAM = {'full-remap': 'distort', 'alpha': 'alpha'}
TABLE = {
    'frame': {**ORTHO_OUT, 'int-param': [(F, 'int_param')], 'ext-param': [(F, 'ext_param')], 'crs': [(F, 'io_kwargs', 'crs'), (G, 'crs')],
              'lla-crs': [(F, 'io_kwargs', 'lla_crs')], 'radians': [(F, 'io_kwargs', 'radians')], 'dem': [(G, 'dem_file', 'open')],
              'dem-band': [(G, 'dem_band')], 'full-remap': [(F, 'cam_kwargs', 'distort')], 'alpha': [(F, 'cam_kwargs', 'alpha')],
              'src_files': [(G, 'src_file', 'open')]},
    'exif': {**ORTHO_OUT, 'crs': [(I, 'io_kwargs', 'crs'), (G, 'crs')], 'lla-crs': [(I, 'io_kwargs', 'lla_crs')], 'dem': [(G, 'dem_file', 'open')],
             'dem-band': [(G, 'dem_band')], 'full-remap': [(I, 'cam_kwargs', 'distort')], 'alpha': [(I, 'cam_kwargs', 'alpha')],
             'src_files': [(I, 'files'), (G, 'src_file', 'open')]},
    'odm': {**ORTHO_OUT, 'dataset-dir': [(F, 'int_param', 'in'), (F, 'ext_param', 'in'), (G, 'dem_file', 'open'), (G, 'src_file', 'open')],
            'crs': [(F, 'io_kwargs', 'crs'), (G, 'crs')], 'full-remap': [(F, 'cam_kwargs', 'distort')], 'alpha': [(F, 'cam_kwargs', 'alpha')]},
    'rpc': {**ORTHO_OUT, 'rpc-param': [('factory.RpcCameras.__init__', 'rpc_param')], 'crs': [('factory.RpcCameras', 'cam_kwargs', 'crs'), (G, 'crs')],
            'refine-method': [(RF, 'fit_kwargs', 'method')], 'gcp-refine': [(RF, 'gcps', 'or tags')], 'dem': [(G, 'dem_file', 'open')], 'dem-band': [(G, 'dem_band')],
            'src_files': [('factory.RpcCameras.from_images', 'files'), (G, 'src_file', 'open')]},
    'sharpen': {'pan': [('pan_sharp.PanSharpen.__init__', 'pan_file', 'open')], 'multispectral': [('pan_sharp.PanSharpen.__init__', 'ms_file', 'open')],
                'pan-index': [(SP, 'pan_index')], 'ms-index': [(SP, 'ms_indexes')], 'weight': [(SP, 'weights')], 'interp': [(SP, 'interp')], 'out-file': [(SP, 'out_file')],
                'write-mask': [(SP, 'write_mask')], 'dtype': [(SP, 'dtype')], 'compress': [(SP, 'compress')], 'build-ovw': [(SP, 'build_ovw')],
                'creation-option': [(SP, 'creation_options')], 'driver': [(SP, 'driver')], 'overwrite': [(SP, 'overwrite')]},
}
# where the default of the corresponding Python argument is declared
DEFAULT = {
    **{o: [('ortho.Ortho.process', p)] for o, p in (('res', 'resolution'), ('interp', 'interp'), ('dem-interp', 'dem_interp'), ('per-band', 'per_band'), ('write-mask', 'write_mask'),
                                                    ('dtype', 'dtype'), ('compress', 'compress'), ('build-ovw', 'build_ovw'), ('driver', 'driver'), ('overwrite', 'overwrite'),
                                                    ('creation-option', 'creation_options'))},
    'dem-band': [('ortho.Ortho.__init__', 'dem_band')], 'crs': [('ortho.Ortho.__init__', 'crs')], 'full-remap': [('camera.FrameCamera.__init__', 'distort')], 'alpha': [('camera.FrameCamera.__init__', 'alpha')],
    'lla-crs': [('param_io.CsvReader.__init__', 'lla_crs'), ('param_io.ExifReader.__init__', 'lla_crs')],
    'radians': [('param_io.CsvReader.__init__', 'radians')], 'refine-method': [('fit.refine_rpc', 'method')],
}
SHARP_DEFAULT = {o: [('pan_sharp.PanSharpen.process', p)] for o, p in (
    ('pan-index', 'pan_index'), ('ms-index', 'ms_indexes'), ('weight', 'weights'), ('interp', 'interp'), ('write-mask', 'write_mask'), ('dtype', 'dtype'), ('compress', 'compress'),
    ('build-ovw', 'build_ovw'), ('creation-option', 'creation_options'), ('driver', 'driver'), ('overwrite', 'overwrite'))}


def flag_of(decl):
    """Documented name of an option / argument declaration, and whether a '/' pair negates with its second name."""
    names = [pyval(a)[1] for a in decl.a[1] if pyval(a)[0] and isinstance(pyval(a)[1], str)]
    longs = [n for n in names if n.startswith('--')]
    if longs:
        return longs[0].split('/')[0].strip().lstrip('-'), longs[0]
    return (names[0].lstrip('-') if names else None), None


def ident(t):
    """Strip conversions that keep the value."""
    while True:
        if callname(t) in ('builtins.bool', 'builtins.int', 'builtins.float', 'builtins.str', 'builtins.tuple', 'builtins.list', 'copy.copy', 'copy.deepcopy', 'builtins.dict') and len(t.a[1]) == 1 and not t.a[2]:
            t = t.a[1][0]
        elif t.k in ('copyof', 'entered'):
            t = t.a[0]
        elif callname(t) and callname(t).startswith('orthority.enums.') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.k == 'enumof' and isinstance(t.a[-1], T):
            t = t.a[-1]
        else:
            return t


def given(t, o, extra=()):
    """Alternatives of t when the option was given (is not None)."""
    t = simp(t, facts_rewrite([not_(mk('cmp', 'is', o, NONE)), *extra]))
    out = []
    for x, conds in leaves(t):
        if not impossible(conds, lambda _: None):
            out.append(ident(x))
    return out


def item(t, key):
    """[value] of a key of dict alternatives; None where it is missing."""
    out = []
    for x, c in leaves(t):
        if x.k == 'dict':
            v = None
            for p in x.a:
                if isinstance(p, tuple) and len(p) == 2 and is_const(p[0]) and p[0].a[1] == key:
                    v = p[1]
                elif isinstance(p, T) and p.k == 'tuple' and len(p.a) == 2 and is_const(p.a[0]) and p.a[0].a[1] == key:
                    v = p.a[1]
            out.append((v, c))
        elif callname(x) == 'builtins.dict':
            out.append((dict(x.a[2]).get(key), c))
        else:
            out.append((None, c))
    return out


def uncond(t):
    """The value without the alternatives for None."""
    return t


def opened(E, t, seen=()):
    """Symbols the opened file (or member of files) comes from."""
    out = set()
    for x in walk(t):
        if x.k == 'sym':
            out.add(x)
        if x.k == 'obj' and x not in seen and x.a[1] in E.st.heap:
            m = E.h(x).meta
            if isinstance(m, tuple) and m and len(m) > 1 and isinstance(m[1], T):
                out |= opened(E, m[1], (*seen, x))
    return out


def same_default(E, a, b):
    def norm(t):
        t = E.prune(t)
        if t.k == 'enum':
            return ('enum', str(t.a[1]))
        ok, v = pyval(t)
        if ok:
            return ('none',) if v is None or v == () or v == {} else ('v', float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v)
        if t.k in ('dict', 'list') and not t.a:
            return ('none',)
        if callname(t) and callname(t).endswith(('.CRS.from_epsg', '.CRS.from_string')) and t.a[1] and is_const(t.a[1][0]):
            return ('v', f'EPSG:{str(t.a[1][0].a[1]).replace("EPSG:", "")}')
        return ('t', t)
    x, y = norm(a), norm(b)
    if x == y:
        return True
    for p, q in ((x, y), (y, x)):
        if p[0] == 'enum' and q[0] == 'v':
            return p[1] == q[1]
    return False


def check(ctx):
    ctx.rule('reach', 'every option value reaches the API argument it documents unchanged, on every path on which that API is called', 50)
    ctx.rule('used', 'every option offered by a command has an effect on its calls of the API', 50)
    ctx.rule('default', 'leaving out an option gives the default value of the corresponding Python argument', 30)
    ctx.rule('flag', 'a pair of on / off flags is declared in that order', 5)
    ctx.rule('callback', 'when an option is given, its callback returns a value made from what was given', 8)
    ctx.rule('dispatch', 'parameter export happens exactly when it is asked for, and refinement exactly when control points are given', 6)
    cbs = {}
    for r in scen.cli_all(ctx.repo):
        ctx.use(r)
        E, cmd = r.E, r.label.split()[-1]
        if E.st is None:
            ctx.ob('used', cmd, False, 'the command cannot complete normally with any options')
            continue
        opts = {}
        for dest, decl in r.options.items():
            fl, pair = flag_of(decl)
            opts[fl] = (dest, decl, r.opts[dest])
            if pair and '/' in pair:
                pos, neg = (x.strip().lstrip('-') for x in pair.split('/')[:2])
                ctx.ob('flag', f'{cmd} --{pos}/--{neg}', not pos.startswith('no-') and (neg == 'no-' + pos or (pos, neg) in (('radians', 'degrees'),) or pos in TABLE[cmd]),
                       f'declared as {pair}')
                if fl not in TABLE[cmd] and neg in TABLE[cmd]:
                    ctx.ob('flag', f'{cmd} --{neg} inverted', False, f'declared as {pair}')
            cb = dict(decl.a[2]).get('callback')
            if cb is not None:
                cbs.setdefault(cb, (fl, decl, cmd))
        for fl, targets in TABLE[cmd].items():
            if fl not in opts:
                ctx.ob('reach', f'{cmd} --{fl}', False, 'the command does not offer this documented option')
                continue
            o = opts[fl][2]
            for tg in targets:
                api, par, key = (*tg, None)[:3]
                evs = [e for e in r.api if (e.name == api or api.startswith('.') and e.name.endswith(api) or e.name.startswith(api + '.') and par in e.bound)]
                if not evs:
                    ctx.ob('reach', f'{cmd} --{fl} -> {api}({par})', False, f'{api} is never called')
                for e in evs:
                    ok, got = reaches(E, e, par, key, o, r)
                    ctx.ob('reach', f'{cmd} --{fl} -> {e.name}({par}{"" if key is None else ": " + key})', ok, f'receives {got}', where(e))
            dflt = (SHARP_DEFAULT if cmd == 'sharpen' else DEFAULT).get(fl, [])
            kw = dict(opts[fl][1].a[2])
            for q, par in dflt:
                fv = scen.fn_named(E, q)
                if fv is None or 'required' in kw and kw['required'] is TRUE:
                    continue
                pd = scen.param_default(E, fv, par)
                if pd is None:
                    continue
                ctx.ob('default', f'{cmd} --{fl} / {q}({par})', same_default(E, kw.get('default', NONE), pd), f"option default {show(kw.get('default', NONE), 3)}, argument default {show(pd, 3)}")
        for fl, (dest, decl, o) in opts.items():
            hit = any(o in set(walk(v)) for e in r.api for v in e.bound.values()) or any(o in set(walk(g)) for e in r.api for g in e.guards) or \
                any(o in opened(E, v) for e in r.api for v in e.bound.values())
            ctx.ob('used', f'{cmd} --{fl}', hit, 'the value of the option has no effect on any call of the API')
        ex = opts.get('export-params')
        if ex:
            for e in r.api:
                if e.name.endswith('.write_param') or e.name == P:
                    want = e.name.endswith('.write_param')
                    tr = mk('truth', ex[2])
                    f = facts_rewrite([not_(tr) if want else tr, not_(ex[2]) if want else ex[2]])
                    ctx.ob('dispatch', f'{cmd} {e.name}', impossible(e.guards, f), f"{e.name} is reachable {'without' if want else 'with'} --export-params", where(e))
        gr = opts.get('gcp-refine')
        if gr:
            for e in r.api:
                if e.name == RF:
                    ctx.ob('dispatch', f'{cmd} {e.name}', impossible(e.guards, facts_rewrite([mk('cmp', 'is', gr[2], NONE)])), 'the models are refined although no control points are given', where(e))
    for cb, (fl, decl, cmd) in cbs.items():
        E = scen.new(ctx.repo)
        multi = dict(decl.a[2]).get('multiple') is TRUE or dict(decl.a[2]).get('nargs', NONE) is const(-1)
        E.symtypes['value'] = ('tuple',) if multi else ('str',)
        v, esc, ev = E.run(cb, [S('ctx'), S('param'), S('value')])
        ctx.use(scen.Run(E, f'callback of --{fl}', v, esc, ev))
        if v is None:
            ctx.ob('callback', f'--{fl}', False, 'the callback never returns')
            continue
        val = S('value')
        tr = mk('truth', val)
        f = facts_rewrite([tr, not_(mk('cmp', 'is', val, NONE)), not_(mk('cmp', '==', mk('call', ext('builtins.len'), (val,), ()), const(0)))])
        t = simp(E.freeze(v), f)
        bad = [x for x, c in leaves(t) if not (val in set(walk(x)) or val in opened(E, x)) and not impossible(c, f)]
        ctx.ob('callback', f'--{fl}', not bad, 'returns ' + '; '.join(show(x, 3)[:100] for x in bad) + ' for a given value' if bad else '')


def reaches(E, e, par, key, o, r):
    if par not in e.bound:
        return False, 'nothing (the argument is not passed)'
    t = e.bound[par]
    given_f = facts_rewrite([not_(mk('cmp', 'is', o, NONE)), *e.guards])
    if key in ('open', 'dir', 'in'):
        src = set()
        for x, c in leaves(simp(t, given_f)):
            ss = opened(E, x) if key == 'open' else set(y for y in walk(x) if y.k == 'sym')
            src = ss & set(r.opts.values())
            others = src - {o}
            if o not in ss:
                return False, show(x, 3)[:150]
            if key == 'open' and others:
                return False, 'also ' + ', '.join(sorted(y.a[0] for y in others))
        return True, ''
    if key == 'or tags':
        if t is o:
            return True, ''
        srcs = r.opts.get('src_files')
        tags = any(x.k == 'cmp' and is_const(x.a[2]) and x.a[2].a[1] == 'tags' for g in e.guards for x in walk(g)) or any('tags' == x.a[1] for g in e.guards for x in walk(g) if is_const(x))
        lv = {ident(x) for x, _ in leaves(t)}
        return lv <= {o, srcs} and tags, show(t, 3)[:150]
    if key is not None:
        vals = item(simp(t, given_f), key)
        alts = []
        for v, c in vals:
            if impossible(c, given_f):
                continue
            if v is None:
                return False, f'no value for {key!r}: {show(t, 4)[:150]}'
            alts += given(v, o, e.guards)
    else:
        alts = given(t, o, e.guards)
    bad = [x for x in alts if x is not o]
    return not bad, ', '.join(show(x, 3)[:100] for x in bad) if bad else show(t, 3)[:100]
