"""Analysed entry points (scenarios): public operations applied to unconstrained symbolic arguments."""
from __future__ import annotations
from .engine import Engine, AnalysisError, Dead
from .terms import *
from .terms import T

FILE = ('str', 'PathLike', 'OpenFile', 'DatasetReader')
TFILE = ('str', 'PathLike', 'OpenFile', 'IOBase')
SYMT = {
    'src_file': FILE, 'dem_file': FILE, 'out_file': ('str', 'PathLike', 'OpenFile'), 'pan_file': FILE, 'ms_file': FILE,
    'pfile': TFILE, 'wfile': TFILE, 'crs': ('str', 'CRS', 'None'), 'crs1': ('str', 'CRS'), 'lla_crs': ('str', 'CRS'),
    'dem_band': ('int',), 'pan_index': ('int',), 'ms_indexes': ('list', 'None'), 'weights': ('list', 'None'),
    'interp': ('str', 'enumstr'), 'dem_interp': ('str', 'enumstr'), 'per_band': ('bool',), 'write_mask': ('bool', 'None'),
    'dtype': ('str', 'None'), 'compress': ('str', 'enumstr', 'None'), 'build_ovw': ('bool',), 'creation_options': ('dict', 'None'),
    'driver': ('str', 'enumstr'), 'overwrite': ('bool',), 'progress': ('bool', 'dict'), 'resolution': ('tuple', 'None'),
    'xyz': ('tuple', 'None'), 'opk': ('tuple', 'None'), 'rpc': ('RPC', 'dict'), 'rpc_options': ('dict', 'None'),
    'distort': ('bool',), 'alpha': ('float',), 'im_size': ('tuple',), 'sensor_size': ('tuple', 'None'), 'radians': ('bool',),
    'int_param_dict': ('dict',), 'ext_param_dict': ('dict',), 'gcp_dict': ('dict',), 'rpc_param_dict': ('dict',),
    'cam_kwargs': ('dict', 'None'), 'io_kwargs': ('dict', 'None'), 'fit_kwargs': ('dict', 'None'), 'files': ('list', 'tuple'),
    'nodata': ('int', 'float'), 'fieldnames': ('list', 'None'), 'dialect': ('Dialect', 'None'), 'out_dir': ('str', 'PathLike', 'OpenFile'),
    'mode': ('str',), 'num_pts': ('int', 'None'), 'transform': ('Affine',), 'transform0': ('Affine', 'None'), 'clip': ('bool',),
    'im_array': ('ndarray',), 'x': ('ndarray',), 'y': ('ndarray',), 'z': ('ndarray',), 'zarr': ('ndarray',), 'zf': ('float',),
    'ji': ('ndarray',), 'wxyz': ('ndarray',), 'gcps': ('list',), 'z_any': ('ndarray', 'float'), 'kernel_size': ('tuple',),
    'indexes': ('list', 'int', 'None'), 'prog_list': ('bool', 'list'), 'gcps_any': ('str', 'PathLike', 'OpenFile', 'IOBase', 'list', 'tuple', 'dict'),
    'int_param': TFILE + ('dict',), 'ext_param': TFILE + ('dict',), 'rpc_param': TFILE + ('dict',),
}
S = sym


def new(repo='/repo', **over):
    E = Engine(repo, dict(SYMT, **over))
    E.load_all()
    return E


CAMS = {'pinhole': 'FrameCamera', 'brown': 'BrownCamera', 'opencv': 'OpenCVCamera', 'fisheye': 'FisheyeCamera',
        'rpc': 'RpcCamera', 'gcp': 'GcpCamera'}
FRAME = ('pinhole', 'brown', 'opencv', 'fisheye')
Q = 'orthority.'


def camera(E, kind, distort=None, init=True):
    cls = E.modvar(Q + 'camera', CAMS[kind])
    if kind == 'rpc':
        return E.run(cls, [S('im_size'), S('rpc')], dict(rpc_options=S('rpc_options'), crs=S('crs')))
    if kind == 'gcp':
        return E.run(cls, [S('im_size'), S('gcps')])
    kw = dict(sensor_size=S('sensor_size'), cx=S('cx'), cy=S('cy'), distort=distort if distort is not None else S('distort'),
              alpha=S('alpha'))
    ns = {'pinhole': [], 'brown': 'k1 k2 p1 p2 k3', 'opencv': 'k1 k2 k3 p1 p2 k4 k5 k6 s1 s2 s3 s4 tx ty', 'fisheye': 'k1 k2 k3 k4'}[kind]
    for n in ns.split() if ns else []:
        kw[n] = S(n)
    if init is True:
        kw.update(xyz=S('xyz3'), opk=S('opk3'))
    elif init == 'sym':
        kw.update(xyz=S('xyz'), opk=S('opk'))
    elif isinstance(init, dict):
        kw.update(init)
    return E.run(cls, [S('im_size'), S('focal_len')], kw)


SYMT.update(xyz3=('tuple',), opk3=('tuple',))

OUT_KW = dict(write_mask=S('write_mask'), dtype=S('dtype'), compress=S('compress'), build_ovw=S('build_ovw'),
              creation_options=S('creation_options'), driver=S('driver'), overwrite=S('overwrite'))


class Run:
    """Result of analysing one entry point."""

    def __init__(self, E, label, value, escapes, events, **extra):
        self.E, self.label, self.value, self.escapes, self.events = E, label, value, escapes, events
        self.st_end = E.st.fork() if E.st is not None else None
        self.__dict__.update(extra)


def ortho(repo, kind, distort=None, process=True, dry=False, **over):
    E = new(repo, **over)
    cam, esc0, ev0 = camera(E, kind, distort)
    if cam is None:
        raise AnalysisError(f'{kind} camera cannot be constructed')
    o, esc1, ev1 = E.run(E.modvar(Q + 'ortho', 'Ortho'), [S('src_file'), S('dem_file'), cam], dict(crs=S('crs'), dem_band=S('dem_band')))
    if o is None:
        raise AnalysisError('Ortho cannot be constructed')
    init = Run(E, f'Ortho({kind})', o, esc1, ev1)
    st_init = E.st.fork()
    esc2, ev2, v = [], [], None
    if process:
        v, esc2, ev2 = E.run(E.getattr_(o, 'process'), [S('out_file')],
                             dict(resolution=S('resolution'), interp=S('interp'), dem_interp=S('dem_interp'), per_band=S('per_band'),
                                  progress=S('progress'), **OUT_KW))
    return Run(E, f'Ortho.process({kind})', v, esc2, ev2, init=init, obj=o, cam=cam, camrun=Run(E, kind, cam, esc0, ev0), st_init=st_init)


def sharpen(repo, process=True, out_dtype=None, **over):
    E = new(repo, **over)
    if out_dtype:
        E.out_dtype, E.dtypes['~'] = out_dtype, None
    o, esc1, ev1 = E.run(E.modvar(Q + 'pan_sharp', 'PanSharpen'), [S('pan_file'), S('ms_file')])
    if o is None:
        raise AnalysisError('PanSharpen cannot be constructed')
    init = Run(E, 'PanSharpen()', o, esc1, ev1)
    st_init = E.st.fork()
    v, esc2, ev2 = E.run(E.getattr_(o, 'process'), [S('out_file')],
                         dict(pan_index=S('pan_index'), ms_indexes=S('ms_indexes'), weights=S('weights'), interp=S('interp'),
                              progress=S('prog_list'), **OUT_KW)) if process else (None, [], [])
    return Run(E, 'PanSharpen.process', v, esc2, ev2, init=init, obj=o, st_init=st_init)


# ------------------------------------------------------------------------------------- other entry points
def api(repo, label, mod, name, args=(), kwargs=None, E=None, intercept=None, **over):
    """Analyse one public function / class constructor."""
    E = E or new(repo, **over)
    E.intercept.update(intercept or {})
    v, esc, ev = E.run(E.modvar(Q + mod, name), list(args), dict(kwargs or {}))
    return Run(E, label, v, esc, ev)


def method(repo, label, obj, name, E, args=(), kwargs=None):
    v, esc, ev = E.run(E.getattr_(obj, name), list(args), dict(kwargs or {}))
    return Run(E, label, v, esc, ev, obj=obj)


WRITERS = {
    'write_int_param': [S('wfile'), S('int_param_dict')],
    'write_ext_param': [S('wfile'), S('ext_param_dict'), S('crs1')],
    'write_rpc_param': [S('wfile'), S('rpc_param_dict')],
    'write_gcps': [S('wfile'), S('gcp_dict')],
}
READERS = {
    'read_oty_int_param': ([S('pfile')], {}), 'read_osfm_int_param': ([S('pfile')], {}), 'read_exif_int_param': ([S('src_file')], {}),
    'read_im_rpc_param': ([S('files')], dict(progress=S('progress'))), 'read_oty_rpc_param': ([S('pfile')], {}),
    'read_im_gcps': ([S('files')], dict(progress=S('progress'))), 'read_oty_gcps': ([S('pfile')], {}),
}
FREADERS = {
    'CsvReader': ([S('pfile')], dict(crs=S('crs'), lla_crs=S('lla_crs'), fieldnames=S('fieldnames'), dialect=S('dialect'), radians=S('radians'))),
    'OsfmReader': ([S('pfile')], dict(crs=S('crs'), lla_crs=S('lla_crs'))),
    'ExifReader': ([S('files')], dict(crs=S('crs'), lla_crs=S('lla_crs'), progress=S('progress'))),
    'OtyReader': ([S('pfile')], {}),
}


def writer(repo, name, overwrite=S('overwrite'), **over):
    kw = {} if overwrite is None else dict(overwrite=overwrite)
    return api(repo, name, 'param_io', name, WRITERS[name], kw, **over)


def reader(repo, name, **over):
    a, k = READERS[name]
    return api(repo, name, 'param_io', name, a, k, **over)


def frame_reader(repo, name, **over):
    """Construct a frame reader, then read its parameters; yields runs."""
    a, k = FREADERS[name]
    r = api(repo, name, 'param_io', name, a, k, **over)
    yield r
    if r.value is not None:
        if name in ('OsfmReader', 'ExifReader'):
            yield method(repo, name + '.read_int_param', r.value, 'read_int_param', r.E)
        yield method(repo, name + '.read_ext_param', r.value, 'read_ext_param', r.E)


def factories(repo, **over):
    """Runs of the camera factories: construction, get, refine, export."""
    r = api(repo, 'FrameCameras', 'factory', 'FrameCameras', [S('int_param'), S('ext_param')], dict(io_kwargs=S('io_kwargs'), cam_kwargs=S('cam_kwargs')), **over)
    yield r
    if r.value is not None:
        yield method(repo, 'FrameCameras.get', r.value, 'get', r.E, [S('src_file')])
        yield method(repo, 'FrameCameras.write_param', r.value, 'write_param', r.E, [S('out_dir')], dict(overwrite=S('overwrite')))
    r = api(repo, 'RpcCameras', 'factory', 'RpcCameras', [S('rpc_param')], dict(cam_kwargs=S('cam_kwargs')), **over)
    yield r
    if r.value is not None:
        yield method(repo, 'RpcCameras.refine', r.value, 'refine', r.E, [S('gcps_any')], dict(io_kwargs=S('io_kwargs'), fit_kwargs=S('fit_kwargs')))
        yield method(repo, 'RpcCameras.get', r.value, 'get', r.E, [S('src_file')])
        yield method(repo, 'RpcCameras.write_param', r.value, 'write_param', r.E, [S('out_dir')], dict(overwrite=S('overwrite')))
    E = new(repo, **over)
    for c in ('FrameCameras', 'RpcCameras'):
        cls = E.modvar(Q + 'factory', c)
        v, esc, ev = E.run(E.getattr_(cls, 'from_images'), [S('files')], dict(io_kwargs=S('io_kwargs'), cam_kwargs=S('cam_kwargs')))
        yield Run(E, c + '.from_images', v, esc, ev)


# ------------------------------------------------------------------------------------- command line
OPT_T = {
    'src_files': ('list',), 'dem_file': ('OpenFile', 'None'), 'int_param_file': ('OpenFile',), 'ext_param_file': ('OpenFile',), 'crs': ('CRS', 'None'),
    'lla_crs': ('CRS', 'None'), 'radians': ('bool',), 'resolution': ('tuple',), 'dem_band': ('int',), 'interp': ('enumstr',), 'dem_interp': ('enumstr',),
    'per_band': ('bool',), 'full_remap': ('bool',), 'alpha': ('float',), 'driver': ('enumstr',), 'write_mask': ('bool', 'None'), 'dtype': ('str', 'None'),
    'compress': ('enumstr', 'None'), 'build_ovw': ('bool',), 'creation_options': ('dict',), 'export_params': ('bool',), 'out_dir': ('OpenFile',),
    'overwrite': ('bool',), 'dataset_dir': ('OpenFile',), 'rpc_param_file': ('OpenFile', 'None'), 'gcp_refine': ('OpenFile', 'str', 'None'),
    'refine_method': ('enumstr',), 'pan_file': ('OpenFile',), 'ms_file': ('OpenFile',), 'out_file': ('OpenFile',), 'pan_index': ('int',),
    'ms_indexes': ('tuple',), 'weights': ('tuple', 'None'),
}
API = ['factory.FrameCameras.__init__', 'factory.FrameCameras.from_images', 'factory.FrameCameras.get', 'factory.FrameCameras.write_param',
       'factory.FrameCameras.crs', 'factory.RpcCameras.__init__', 'factory.RpcCameras.from_images', 'factory.RpcCameras.get',
       'factory.RpcCameras.write_param', 'factory.RpcCameras.refine', 'ortho.Ortho.__init__', 'ortho.Ortho.process',
       'pan_sharp.PanSharpen.__init__', 'pan_sharp.PanSharpen.process']


def dest_of(term):
    """Parameter name click derives for an option / argument declaration term."""
    names = [pyval(a)[1] for a in term.a[1] if pyval(a)[0] and isinstance(pyval(a)[1], str)]
    plain = [n for n in names if not n.startswith('-')]
    if plain:
        return plain[0]
    long = sorted((n.split('/')[0] for n in names if n.startswith('-')), key=lambda n: -len(n) + len(n.lstrip('-')) * 0)
    long = [n for n in (x.split('/')[0].strip() for x in names) if n.startswith('--')] or long
    return long[0].lstrip('-').replace('-', '_').lower() if long else None


def params_of(E, fv, v):
    """Declared click parameters {dest: declaration term} of a decorated command function."""
    out = {}
    decl = list(fv.decos)
    while v.k == 'call':                      # decorators applied through a helper
        if v.a[0].k == 'call':
            decl.append(v.a[0])
        v = v.a[1][0] if v.a[1] else NONE
    for d in decl:
        if d.k == 'call' and d.a[0].k == 'ext' and d.a[0].a[0] in ('click.option', 'click.argument', 'click.decorators.option', 'click.decorators.argument'):
            n = dest_of(d)
            if n:
                out[n] = d
    return out


def commands(E):
    """{command name: (function term, parameters)} of every click command in the package."""
    out = {}
    for fv in list(E.funcs.values()):
        for d in fv.decos:
            f = d
            nm = None
            if d.k == 'call':
                f = d.a[0]
                nm = dict(d.a[2]).get('name') or (d.a[1][0] if d.a[1] else None)
            if (f.k == 'attr' and f.a[1] == 'command') or (f.k == 'ext' and f.a[0] == 'click.command'):
                name = pyval(nm)[1] if nm is not None and pyval(nm)[0] else fv.name.replace('_', '-')
                mod = fv.qual.rsplit('.', 1)[0]
                v = E.modvar(mod, fv.name)
                out[name] = (mk('fn', fv.qual, fv.uid), params_of(E, fv, v))
    return out


def api_intercept(raises=None, values=True):
    """Intercepts that record a call of the public API instead of analysing it."""
    def mkcb(q):
        def cb(E, fv, args, kwargs, node):
            env = E.bind_args(fv, args, kwargs, node)
            e = E.emit('api', q, node, bound=env)
            if e is not None:
                e.bound = {k: E.freeze(v) for k, v in env.items() if k != 'self'}
            for c in (raises or {}).get(q, ()):
                E.maybe(c, node=node, via=q)
            if q.endswith(('.process', '.write_param')):
                E.st.heap[-1] = E.st.heap[-1].with_(mk('wrote', ext('api.' + q), (), ()))
            if q.endswith('from_images'):
                return E.alloc('inst', {}, E.classes[Q + q.rsplit('.', 1)[0]])
            if q.endswith('.crs'):
                return sym('cameras.crs')
            if q.endswith('.get'):
                return mk('call', ext('api.' + q), tuple(E.freeze(v) for k, v in env.items() if k != 'self'), ())
            return NONE
        return cb
    return {Q + q: mkcb(q) for q in API}


def cli(repo, name, raises=None, E=None, **opts):
    """Analyse one command with symbolic (post-callback) option values; calls of the processing API are recorded in .api."""
    E = E or new(repo)
    fn, params = commands(E)[name]
    E.intercept.update(api_intercept(raises))
    vals = {}
    for p in params:
        E.symtypes['opt_' + p] = OPT_T.get(p, ('str', 'None'))
        vals[p] = opts.get(p, sym('opt_' + p))
    E.symtypes['cameras.crs'] = ('CRS', 'None')
    v, esc, ev = E.run(fn, [], dict(vals))
    return Run(E, f'oty {name}', v, esc, ev, options=params, opts=vals, api=[e for e in ev if e.kind == 'api'])


COMMANDS = ('frame', 'exif', 'odm', 'rpc', 'sharpen')
_cli = {}


def cli_all(repo):
    if repo not in _cli:
        _cli[repo] = [cli(repo, c) for c in COMMANDS]
    return _cli[repo]


def defaults(repo):
    """Writing operations with only their required arguments."""
    E = new(repo)
    cam, _, _ = camera(E, 'pinhole')
    o, _, _ = E.run(E.modvar(Q + 'ortho', 'Ortho'), [S('src_file'), S('dem_file'), cam])
    yield 'Ortho.process()', method(repo, 'Ortho.process()', o, 'process', E, [S('out_file')])
    r = api(repo, 'PanSharpen()', 'pan_sharp', 'PanSharpen', [S('pan_file'), S('ms_file')])
    yield 'PanSharpen.process()', method(repo, 'PanSharpen.process()', r.value, 'process', r.E, [S('out_file')])
    r = api(repo, 'FrameCameras', 'factory', 'FrameCameras', [S('int_param'), S('ext_param')])
    yield 'FrameCameras.write_param()', method(repo, 'FrameCameras.write_param()', r.value, 'write_param', r.E, [S('out_dir')])
    r = api(repo, 'RpcCameras', 'factory', 'RpcCameras', [S('rpc_param')])
    yield 'RpcCameras.write_param()', method(repo, 'RpcCameras.write_param()', r.value, 'write_param', r.E, [S('out_dir')])


# ------------------------------------------------------------------------------------- camera operations
CAM_OPS = {
    'world_to_pixel': ([S('wxyz')], dict(distort=S('distort'))), 'pixel_to_world_z': ([S('ji'), S('z_any')], dict(distort=S('distort'))),
    'pixel_boundary': ([], dict(num_pts=S('num_pts'))), 'world_boundary': ([S('z_any')], dict(num_pts=S('num_pts'), transform=S('transform0'), clip=S('clip'), interp=S('interp'))),
    'read': ([S('src_file')], dict(indexes=S('indexes'), dtype=S('dtype1'), nodata=S('nodata'), interp=S('interp'))),
    'remap': ([S('im_array'), S('x'), S('y'), S('z')], dict(nodata=S('nodata'), interp=S('interp'), kernel_size=S('kernel_size'))),
}
FRAME_OPS = {'undistort_pixel': ([S('ji')], dict(clip=S('clip'))), 'distort_pixel': ([S('ji')], dict(clip=S('clip'))),
             'undistort_im': ([S('im_array')], dict(nodata=S('nodata'), interp=S('interp')))}
SYMT.update(dtype1=('str',))


def camera_ops(repo, kind, distort=None, init=True, ops=None, prep=None, **over):
    """Runs of the public methods of a camera of one kind; only parameters the method has are passed."""
    table = dict(CAM_OPS)
    if kind in FRAME:
        table.update(FRAME_OPS)
    for name, (a, k) in table.items():
        if ops is not None and name not in ops:
            continue
        E = new(repo, **over)
        cam, _, _ = camera(E, kind, distort, init)
        if cam is None:
            raise AnalysisError(f'{kind} camera cannot be constructed')
        if prep is not None and not prep(E, cam):
            continue
        try:
            m = E.getattr_(cam, name)
        except Dead:
            continue
        fv = fn_of(E, m)
        ps = fv.params() if fv is not None else None
        names = [p for p in ps] if ps is not None else None
        kw = {n: v for n, v in k.items() if names is None or n in names}
        st = E.st.fork()
        v, esc, ev = E.run(m, list(a), kw)
        yield Run(E, f'{kind}.{name}', v, esc, ev, obj=cam, st_init=st, mutator=False, name=name)


def fn_of(E, m):
    if m.k == 'bound':
        return fn_of(E, m.a[0])
    if m.k == 'fn':
        return E.funcs.get(m.a[1])
    return None


def fn_named(E, q):
    """FuncVal of 'module.Class.method' or 'module.function' (looked up through the base classes), None if there is none."""
    parts = q.split('.')
    try:
        v = E.modvar(Q + parts[0], parts[1])
        for p in parts[2:]:
            v = E.getattr_(v, p)
    except (Dead, KeyError, AnalysisError):
        return None
    return fn_of(E, v)


def param_default(E, fv, name):
    """Default value term of a parameter (None: it has none)."""
    ps = fv.params()
    if name in fv.kw_defaults:
        return fv.kw_defaults[name]
    if name in ps:
        i = ps.index(name) - (len(ps) - len(fv.defaults))
        return fv.defaults[i] if i >= 0 else None
    return None
