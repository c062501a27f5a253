"""Interprocedural value-flow analysis of the orthority package.

The package source is parsed with `ast` on every run and every analysed entry point is evaluated
abstractly: values are hash-consed terms (gated SSA: joins become `ite`, loop-carried values become
`lv`/`after`), calls to package functions are resolved and inlined, external calls become uninterpreted
terms, and branches are joined, never enumerated as paths.  Nothing of the package is executed.

The result of an analysis is an ordered list of events (external calls, stores, raises, context manager
entries and exits, task submissions ...) each with its place, controlling conditions, locks, thread and
loops, plus the exceptions that can escape.  The rules in `checks/` are decided on these.
"""
from __future__ import annotations
import ast
import builtins as _bi
import os
from pathlib import Path
from .terms import *
from .terms import T

PKG = 'orthority'
MAXUNROLL = 40


class Dead(Exception):
    """The current abstract path has ended (raise)."""


class AnalysisError(Exception):
    pass


ALIAS = {
    'rasterio.CRS': 'rasterio.crs.CRS', 'rasterio.Affine': 'affine.Affine',
    'rasterio.transform.RPC': 'rasterio.rpc.RPC', 'rasterio.Env': 'rasterio.env.Env',
    'rasterio.DatasetReader': 'rasterio.io.DatasetReader', 'numpy.pi': 'math.pi',
    'rasterio.control.GroundControlPoint': 'rasterio.transform.GroundControlPoint',
    'rasterio.transform.Affine': 'affine.Affine', 'rasterio.features.Window': 'rasterio.windows.Window',
    'rasterio.vrt.DatasetReaderBase': 'rasterio.io.DatasetReaderBase', 'fsspec.OpenFile': 'fsspec.core.OpenFile',
    'fsspec.core.open': 'fsspec.open', 'fsspec.core.open_files': 'fsspec.open_files',
    'tqdm.tqdm': 'tqdm.auto.tqdm', 'tqdm.std.tqdm': 'tqdm.auto.tqdm', 'numpy.deg2rad': 'numpy.radians',
    'math.radians': 'numpy.radians', 'numpy.rad2deg': 'numpy.degrees', 'math.degrees': 'numpy.degrees',
    'xml.etree.cElementTree': 'xml.etree.ElementTree', 'os.PathLike': 'os.PathLike',
    'threading.Lock': 'threading.Lock', 'threading.RLock': 'threading.Lock',
    'concurrent.futures.thread.ThreadPoolExecutor': 'concurrent.futures.ThreadPoolExecutor',
    'rasterio.crs.CRS.from_user_input': 'rasterio.crs.CRS.from_string', 'builtins.EnvironmentError': 'builtins.OSError',
    'builtins.IOError': 'builtins.OSError', 'io.open': 'builtins.open', 'numpy.max': 'numpy.amax',
    'numpy.min': 'numpy.amin', 'numpy.linalg.norm': 'numpy.linalg.norm',
    'rasterio.CRSError': 'rasterio.errors.CRSError', 'json.decoder.JSONDecodeError': 'json.JSONDecodeError',
    'rasterio.RasterioIOError': 'rasterio.errors.RasterioIOError',
    'pathlib.PurePath': 'pathlib.Path', 'pathlib.PosixPath': 'pathlib.Path', 'numpy.abs': 'numpy.absolute',
    'numpy.nan': 'NAN', 'numpy.NaN': 'NAN', 'math.nan': 'NAN',
}
EXC_BASE = {
    'rasterio.errors.RasterioIOError': ['rasterio.errors.RasterioError', 'builtins.OSError'],
    'rasterio.errors.RasterioError': ['builtins.Exception'],
    'rasterio.errors.CRSError': ['builtins.ValueError'], 'rasterio.errors.WindowError': ['rasterio.errors.RasterioError'],
    'json.JSONDecodeError': ['builtins.ValueError'], 'yaml.YAMLError': ['builtins.Exception'],
    'csv.Error': ['builtins.Exception'], 'click.ClickException': ['builtins.Exception'],
    'click.UsageError': ['click.ClickException'], 'click.BadParameter': ['click.UsageError'],
    'click.MissingParameter': ['click.BadParameter'], 'click.BadOptionUsage': ['click.UsageError'],
    'click.BadArgumentUsage': ['click.UsageError'], 'click.FileError': ['click.ClickException'],
    'click.NoSuchOption': ['click.UsageError'], 'click.Abort': ['builtins.RuntimeError'],
    'xml.etree.ElementTree.ParseError': ['builtins.SyntaxError'],
    'concurrent.futures.CancelledError': ['builtins.Exception'], '?': ['builtins.Exception'],
}
FRESH_ALLOC = {'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty', 'numpy.eye', 'numpy.zeros_like',
               'numpy.full_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.array', 'numpy.identity'}
RESOURCES = {'rasterio.open', 'rasterio.env.Env', 'threading.Lock', 'concurrent.futures.ThreadPoolExecutor',
             'contextlib.ExitStack', 'rasterio.vrt.WarpedVRT', 'tqdm.auto.tqdm', 'builtins.open',
             'rasterio.transform.GCPTransformer', 'rasterio.transform.RPCTransformer', 'warnings.catch_warnings',
             'numpy.errstate', 'cProfile.Profile', 'rasterio.io.MemoryFile', 'logging.getLogger',
             'threading.Semaphore', 'threading.Event', 'concurrent.futures.ProcessPoolExecutor', 'io.StringIO',
             'contextlib.suppress', 'contextlib.nullcontext', 'contextlib.closing', 'threading.Condition',
             'threading.Thread', 'threading.local', 'queue.Queue'}
PASS_ITER = {'tqdm.auto.tqdm', 'concurrent.futures.as_completed', 'builtins.iter', 'builtins.list', 'builtins.tuple',
             'builtins.sorted', 'builtins.reversed', 'builtins.set', 'builtins.frozenset'}


UNWRITTEN = mk('sym', '~unwritten')


class HObj:
    __slots__ = ('kind', 'data', 'meta')

    def __init__(self, kind, data, meta=None):
        self.kind, self.data, self.meta = kind, data, meta

    def with_(self, data):
        return HObj(self.kind, data, self.meta)


class State:
    __slots__ = ('envs', 'heap', 'guards', 'locks')

    def __init__(self):
        self.envs, self.heap, self.guards, self.locks = {}, {}, (), ()

    def fork(self, *guards):
        s = State()
        s.envs, s.heap = dict(self.envs), dict(self.heap)
        s.guards, s.locks = self.guards, self.locks
        for g in guards:
            s.assume(g)
        return s

    def assume(self, g):
        if g.k == 'const' or g in self.guards:
            return
        add = [g]
        if g.k == 'and':
            add = list(g.a)
        elif g.k == 'not' and g.a[0].k == 'or':
            add = [not_(x) for x in g.a[0].a]
        self.guards = self.guards + tuple(x for x in add if x not in self.guards)


class FuncVal:
    def __init__(self, node, mod, qual, closure, cls=None):
        self.node, self.mod, self.qual, self.closure, self.cls = node, mod, qual, closure, cls
        self.defaults, self.kw_defaults = [], {}
        self.decos = []
        self.kind = 'function'
        self.is_cm = False
        self.uid = 0
        self.raises = None
        body = node.body if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else []
        self.is_gen = _has_yield(body)

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


def _has_yield(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, qual, bases, mod):
        self.qual, self.bases, self.mod = qual, bases, mod
        self.ns = {}
        self.node = None

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]


class Frame:
    def __init__(self, fid, fv, mod, qual, base):
        self.fid, self.fv, self.mod, self.qual, self.base = fid, fv, mod, qual, base
        self.returns = []
        self.on_yield = None
        self.has_closure = False
        self.globals_, self.nonlocals = set(), set()


class Raise:
    __slots__ = ('cls', 'val', 'st', 'loc', 'implicit', 'guards', 'thread', 'via', 'stack')

    def __init__(self, cls, val, st, loc, implicit, guards, thread, via=None, stack=()):
        self.cls, self.val, self.st, self.loc, self.implicit = cls, val, st, loc, implicit
        self.guards, self.thread, self.via, self.stack = guards, thread, via, stack


class Event:
    __slots__ = ('kind', 'name', 'data', 'loc', 'guards', 'locks', 'thread', 'loops', 'stack', 'i', 'exc', 'handlers',
                 'cms', 'bound', 'iters')

    def __repr__(self):
        return f'<{self.i} {self.kind} {self.name} {self.loc} {self.data}>'


class Loc:
    __slots__ = ('file', 'line', 'func')

    def __init__(self, file, line, func):
        self.file, self.line, self.func = file, line, func

    def __str__(self):
        return f'{self.file}:{self.line} ({self.func})'

    __repr__ = __str__


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = Path(path).read_text()
        self.tree = ast.parse(self.src, str(path))
        self.fid = None


def absent_ite(c, a, b):
    """Merged value of a dictionary entry; an entry that may be missing has the form (value if present else ABSENT)."""
    def parts(v):
        if v is ABSENT:
            return FALSE, None
        if v.k == 'ite' and ABSENT in v.a[1:]:
            return (v.a[0], v.a[1]) if v.a[2] is ABSENT else (not_(v.a[0]), v.a[2])
        return TRUE, v
    (pa, va), (pb, vb) = parts(a), parts(b)
    if pa is TRUE and pb is TRUE or va is None and vb is None:
        return ite(c, a, b)
    p = or_(and_(c, pa), and_(not_(c), pb))
    v = vb if va is None else va if vb is None else ite(c, va, vb)
    return v if p is TRUE else ABSENT if p is FALSE else mk('ite', p, v, ABSENT)


class Engine:
    def __init__(self, repo='/repo', symtypes=None):
        self.repo = Path(repo)
        self.root = self.repo / PKG
        self.mods: dict[str, Module] = {}
        self.funcs: dict[int, FuncVal] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.st = State()
        self.sinks = [[]]
        self.frames: list[Frame] = []
        self.cleanups = []
        self.nopen = 0
        self.max_rec = 2       # activations of a recursive function that are analysed
        self.dtypes = {}       # data types assumed for array symbols
        self.lv_types = {}     # types a loop-carried value has after an iteration
        self.load_heap = set() # objects that exist after import
        self.shape_hook = None  # term -> shape of an array, for analyses with arrays of known size
        self.out_dtype = None  # data type assumed for created images
        self.steps = {}        # loop carried value -> its value at the end of an iteration
        self.loops = ()
        self.iters = ()
        self.loopctx = []
        self.events: list[Event] = []
        self.mute = 0
        self.uid = 0
        self.thread = 'main'
        self.node = None
        self.curexc = []
        self.exctag = ''
        self.symtypes = dict(symtypes or {})
        self.truthy = {'CRS', 'OpenFile', 'DatasetReaderBase', 'RPC', 'Camera', 'Path', 'DatasetReader', 'Affine'}
        self.inlined = set()
        for g in (-1, -2):
            self.st.heap[g] = HObj('array', UNWRITTEN)
        self.call_hook = None
        self.notes = []
        self.intercept = {}
        self.ext_values = {}
        self.fn_values = {}
        self.attr_values = {}
        self.st_last = None
        self.depth = 0
        self.modorder = []
        for f in sorted(self.root.rglob('*.py')):
            rel = f.relative_to(self.repo).with_suffix('')
            name = '.'.join(rel.parts)
            if name.endswith('.__init__'):
                name = name[:-9]
            self.mods[name] = Module(name, f)

    # ------------------------------------------------------------------ utilities
    def new_uid(self):
        self.uid += 1
        return self.uid

    def alloc(self, kind, data, meta=None):
        u = self.new_uid()
        self.st.heap[u] = HObj(kind, data, meta)
        return mk('obj', kind, u)

    def h(self, t) -> HObj:
        return self.st.heap[t.a[1]]

    def seth(self, t, data):
        o = self.st.heap[t.a[1]]
        self.st.heap[t.a[1]] = o.with_(data)

    def loc(self, node=None):
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        file = os.path.relpath(fr.mod.path, self.repo) if fr else '?'
        return Loc(file, getattr(node, 'lineno', 0), fr.qual if fr else '?')

    def emit(self, kind, name, node=None, **data):
        if self.mute:
            return None
        e = Event()
        e.kind, e.name, e.data = kind, name, data
        e.loc = self.loc(node)
        e.guards, e.locks = self.st.guards, self.st.locks
        e.thread, e.loops, e.iters = self.thread, self.loops, self.iters
        e.stack = tuple(f.qual for f in self.frames)
        e.exc = self.exctag
        e.handlers = ()
        e.cms = tuple(c[1] for c in self.cleanups if c[0] == 'cm')
        e.i = len(self.events)
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ modules
    def load(self, name):
        m = self.mods[name]
        if m.fid is not None:
            return m
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if parent in self.mods and self.mods[parent].fid is None:
                self.load(parent)
                if m.fid is not None:
                    return m
        m.fid = self.new_uid()
        save = (self.frames, self.cleanups, self.loops, self.loopctx, self.thread, self.st.guards, self.st.locks, self.node)
        self.frames, self.cleanups, self.loops, self.loopctx, self.thread = [], [], (), [], 'main'
        self.st.guards, self.st.locks = (), ()
        fr = Frame(m.fid, None, m, m.name, 0)
        self.frames.append(fr)
        self.st.envs[m.fid] = {'__name__': const(m.name), '__file__': const(str(m.path)),
                               '__package__': const(PKG)}
        self.exec_block(m.tree.body)
        (self.frames, self.cleanups, self.loops, self.loopctx, self.thread, g, l, self.node) = save
        if self.st is None:
            raise AnalysisError(f'module {name} does not complete')
        self.st.guards, self.st.locks = g, l
        self.modorder.append(name)
        return m

    def load_all(self):
        for n in sorted(self.mods):
            self.load(n)
        self.escaped_import = self.sinks[0]
        self.sinks = [[]]
        self.events = []
        self.load_heap = {k for k in self.st.heap if k >= 0}

    def revive(self):
        """After an entry point without normal exit, go on from the state before it."""
        if self.st is None and self.st_last is not None:
            self.st = self.st_last.fork()

    def modvar(self, mod, name):
        if mod not in self.mods:
            raise AnalysisError(f'module {mod} not found')
        self.revive()
        env = self.st.envs[self.load(mod).fid]
        v = env.get(name)
        if v is None:
            raise AnalysisError(f'{mod}.{name} not found')
        return v

    def func(self, qual):
        """Function term for 'orthority.mod.func' or 'orthority.mod.Class.method'."""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            m = '.'.join(parts[:i])
            if m in self.mods:
                v = self.modvar(m, parts[i])
                for p in parts[i + 1:]:
                    v = self.getattr_(v, p)
                return v
        raise AnalysisError(qual)

    # ------------------------------------------------------------------ env
    def lookup(self, name):
        fr = self.frames[-1]
        if name in fr.globals_:
            scopes = [fr.mod.fid]
        else:
            scopes = [fr.fid]
            if fr.fv is not None:
                scopes += list(reversed(fr.fv.closure))
            elif getattr(fr, 'closure', None):
                scopes += list(reversed(fr.closure))
            scopes.append(fr.mod.fid)
        for s in scopes:
            env = self.st.envs.get(s)
            if env is not None and name in env:
                v = env[name]
                if v is UNDEF:
                    continue
                return self.prune(v)
        if hasattr(_bi, name):
            return self.extn('builtins.' + name)
        return mk('unbound', name)

    def setvar(self, name, val, fid=None):
        fr = self.frames[-1]
        if fid is None:
            fid = fr.fid
            if name in fr.globals_ or name in fr.nonlocals:
                self.emit('nonlocal', name)
            if name in fr.globals_ and fr.fv is not None:
                self.emit('setglobal', name, target=mk('mod', fr.mod.name))
            if name in fr.globals_:
                fid = fr.mod.fid
            elif name in fr.nonlocals:
                for s in reversed(fr.fv.closure if fr.fv else ()):
                    if name in self.st.envs.get(s, {}):
                        fid = s
                        break
        d = dict(self.st.envs.get(fid, {}))
        d[name] = val
        self.st.envs[fid] = d

    def extn(self, name):
        seen = 0
        while name in ALIAS and seen < 4:
            if ALIAS[name] == name:
                break
            name = ALIAS[name]
            seen += 1
        if name == 'NAN':
            return const(float('nan'))
        if name == 'numpy.newaxis':
            return NONE
        if name in ('math.inf', 'numpy.inf'):
            return const(float('inf'))
        return ext(name)

    # ------------------------------------------------------------------ conditions
    def types_of(self, t):
        """Possible type names (last component) of a term, or None when unknown."""
        k = t.k
        if k == 'const':
            return {t.a[0] if t.a[1] is not None else 'None'}
        if k == 'tuple':
            return {'tuple'}
        if k == 'fstr':
            return {'str'}
        if k == 'enum':
            c = self.classes.get(t.a[0])
            return {n.rsplit('.', 1)[-1] for n in self.mro_names(c)} & {'str'} and {'enumstr'} or {'enum'}
        if k == 'obj':
            kk = t.a[0]
            if kk == 'inst':
                return {'inst'}
            return {{'array': 'ndarray', 'res': 'res'}.get(kk, kk)}
        if k in ('list', 'dict', 'set'):
            return {k}
        if k == 'sym':
            s = self.symtypes.get(t.a[0])
            return set(s) if s else None
        if k == 'ite':
            a, b = self.types_of(t.a[1]), self.types_of(t.a[2])
            return a | b if a and b else None
        if k in ('fn', 'bound', 'partial', 'bm'):
            return {'function'}
        if k == 'cls':
            return {'type'}
        if k in ('lv', 'after'):
            ts = [self.types_of(x) for x in t.a[2:] if isinstance(x, T)]
            if k == 'lv':
                if t not in self.lv_types:
                    return None
                ts.append(self.lv_types[t])
            return set().union(*ts) if ts and all(ts) else None
        if k == 'cmp' or k == 'not' or k == 'isinst' or k == 'and' or k == 'or' or k == 'truth':
            return {'bool'}
        if k == 'bin':
            a, b = self.types_of(t.a[1]), self.types_of(t.a[2])
            num = {'int', 'float', 'bool'}
            if a and b and a <= num and b <= num:
                return {'float', 'int'}
            if t.a[0] == '*' and a and b and a | b == {'Affine'}:
                return {'Affine'}
            return None
        if k == 'attr' and t.a[1] == 'transform' or k == 'sub' and is_const(t.a[1]) and t.a[1].a[1] == 'transform':
            return {'Affine'}
        if k == 'sub' and t.a[1] is const(1) and t.a[0].k == 'call' and t.a[0].a[0].k == 'ext' and t.a[0].a[0].a[0] == 'rasterio.warp.reproject':
            return {'Affine'}
        if k == 'call':
            f = t.a[0]
            if f.k == 'ext':
                n = f.a[0]
                last = n.rsplit('.', 1)[-1]
                if n in ('builtins.str', 'builtins.repr', 'os.fspath', 'posixpath.join', 'os.path.join'):
                    return {'str'}
                if n in ('builtins.int', 'builtins.float', 'builtins.bool', 'builtins.len'):
                    return {{'len': 'int'}.get(last, last)}
                if n.startswith('rasterio.crs.CRS.from_'):
                    return {'CRS'}
                if n in ('numpy.array', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.vstack', 'numpy.column_stack'):
                    return {'ndarray'}
                if n in ('fsspec.open', 'fsspec.core.OpenFile'):
                    return {'OpenFile'}
                if n == 'pathlib.Path':
                    return {'Path'}
                if n == 'rasterio.windows.transform' or 'Affine' in n:
                    return {'Affine'}
                if n == 'rasterio.windows.Window':
                    return {'Window'}
                if n == 'rasterio.rpc.RPC':
                    return {'RPC'}
            if f.k == 'attr' and f.a[1] in ('to_dict',):
                return {'dict'}
            if f.k == 'attr' and f.a[1] in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'format', 'to_string', 'to_proj4', 'replace'):
                return {'str'}
            if f.k == 'attr' and f.a[1] == 'window_transform':
                return {'Affine'}
            if f.k == 'attr' and f.a[1] in ('joinpath', 'with_suffix', 'absolute'):
                return {'Path'}
        return None

    def _types_in(self, states, vals):
        old, out = self.st, set()
        for s in states:
            self.st = s
            for v in vals:
                ts = self.types_of(v) if isinstance(v, T) else None
                if not ts:
                    self.st = old
                    return None
                out |= ts
        self.st = old
        return out

    SUB = {'Path': {'PathLike'}, 'OpenFile': {'PathLike'}, 'DatasetReader': {'DatasetReaderBase'},
           'DatasetWriter': {'DatasetReaderBase'},
           'bool': {'int'}, 'list': {'Iterable', 'Sequence', 'Sized', 'Container', 'Collection'},
           'tuple': {'Iterable', 'Sequence', 'Collection'},
           'str': {'Iterable', 'Sequence', 'Collection'}, 'dict': {'Iterable', 'Mapping', 'Collection', 'MutableMapping'},
           'set': {'Iterable', 'Collection'}, 'ndarray': {'Iterable'}, 'enumstr': {'str', 'Enum', 'Iterable'}, 'enum': {'Enum'},
           'StringIO': {'IOBase', 'TextIOBase'}, 'int': {'Number', 'Integral', 'Real'}, 'float': {'Number', 'Real'}}

    def subtypes_match(self, tn, names):
        return tn in names or bool(self.SUB.get(tn, set()) & names) or 'object' in names

    def isinst(self, x, clsterm):
        clss = self.flat_classes(clsterm)
        if clss is None:
            return mk('isinst', x, clsterm)
        names = {c.a[0].rsplit('.', 1)[-1] if c.k in ('ext', 'cls') else '?' for c in clss}
        quals = {c.a[0] for c in clss}
        if x.k == 'ite':
            return self.cond_ite(x, lambda v: self.isinst(v, clsterm))
        if x.k == 'obj' and x.a[0] == 'inst':
            mro = self.mro_names(self.h(x).meta)
            return const(bool(quals & set(mro)) or 'builtins.object' in quals)
        if x.k == 'obj' and x.a[0] == 'res':
            h = self.h(x)
            tset = h.data.get('__types__') if isinstance(h.data, dict) else None
            if tset:
                return const(any(self.subtypes_match(n, names) for n in tset))
            return mk('isinst', x, tup(*sorted((ext(q) for q in quals), key=lambda z: z.a[0])))
        if x.k == 'enum':
            mro = set(self.mro_names(self.classes[x.a[0]]))
            return const(bool(mro & quals) or ('builtins.str' in quals and 'builtins.str' in mro))
        if x.k == 'cls':
            return const('type' in names)
        if x.k == 'ext' and x.a[0].startswith('builtins.') and isinstance(getattr(_bi, x.a[0][9:], None), type):
            return const(bool(names & {'type', 'object', 'Callable', 'Hashable'}))
        if x.k == 'ext' and 'type' in names and len(names) == 1:
            return const(x.a[0].startswith('builtins.') and isinstance(getattr(_bi, x.a[0][9:], None), type))
        ts = self.types_of(x)
        if ts is not None:
            ts = self.narrow(x, ts)
            res = {self.subtypes_match(n, names) for n in ts}
            if len(res) == 1:
                return const(res.pop())
        if any(q.startswith(PKG) for q in quals) and x.k == 'const':
            return FALSE
        return mk('isinst', x, tup(*sorted((ext(q) for q in quals), key=lambda z: z.a[0])))

    def narrow(self, x, ts):
        for g in self.st.guards:
            pos = True
            c = g
            if c.k == 'not':
                pos, c = False, c.a[0]
            if c.k == 'isinst' and c.a[0] is x and c.a[1].k == 'tuple':
                names = {e.a[0].rsplit('.', 1)[-1] for e in c.a[1].a}
                ts = {n for n in ts if self.subtypes_match(n, names) == pos}
            if c.k == 'cmp' and c.a[0] == 'is' and c.a[1] is x and c.a[2] is NONE:
                ts = {n for n in ts if (n == 'None') == pos}
            if c.k == 'truth' and c.a[0] is x and pos:
                ts = ts - {'None'}
        return ts

    def flat_classes(self, t):
        if t.k in ('ext', 'cls'):
            return [t]
        if t.k == 'tuple':
            out = []
            for x in t.a:
                r = self.flat_classes(x)
                if r is None:
                    return None
                out += r
            return out
        if t.k == 'obj' and t.a[0] == 'list':
            return self.flat_classes(tup(*self.h(t).data))
        if t.k == 'bin' and t.a[0] == '|':
            a, b = self.flat_classes(t.a[1]), self.flat_classes(t.a[2])
            return a + b if a is not None and b is not None else None
        return None

    def cond_ite(self, x, f):
        c, a, b = x.a
        g0 = self.st.guards
        self.st.assume(c)
        fa = self.fold(f(a))
        self.st.guards = g0
        self.st.assume(not_(c))
        fb = self.fold(f(b))
        self.st.guards = g0
        return or_(and_(c, fa), and_(not_(c), fb)) if not (fa.k == 'const' and fb.k == 'const') else (
            fa if fa is fb else (c if fa.a[1] else not_(c)))

    def cond(self, t):
        """Truth condition of a value."""
        k = t.k
        if k == 'const':
            try:
                return const(bool(t.a[1]))
            except Exception:
                return TRUE
        if k in ('cmp', 'not', 'isinst', 'and', 'or', 'truth'):
            return t
        if k == 'ite':
            return self.cond_ite(t, self.cond)
        if k == 'tuple':
            return const(len(t.a) > 0)
        if k == 'obj':
            h = self.st.heap.get(t.a[1])
            if h is None:
                return mk('truth', t)
            if h.kind in ('list', 'set', 'dict'):
                if any(not (isinstance(e, T) and e.k in ('star', 'dstar', 'spread')) for e in h.data):
                    if not (h.kind == 'dict' and all(isinstance(e, tuple) and e[1].k == 'ite' for e in h.data)):
                        return TRUE
                if not h.data:
                    return FALSE
                return mk('truth', self.freeze(t))
            if h.kind in ('inst', 'gen', 'future', 'res', 'stack'):
                return TRUE
            return mk('truth', self.freeze(t))
        if k in ('enum', 'cls', 'fn', 'bound', 'partial', 'ext', 'mod', 'bm'):
            return TRUE
        if k == 'sym':
            ts = self.symtypes.get(t.a[0])
            if ts and 'None' in ts and (set(ts) - {'None'}) <= self.truthy:
                return not_(mk('cmp', 'is', t, NONE))
            if ts and set(ts) <= self.truthy:
                return TRUE
        ts = self.types_of(t)
        if ts and ts <= self.truthy:
            return TRUE
        return mk('truth', t)

    def fold(self, c, guards=None):
        """Decide a condition from the guards where possible."""
        if c.k == 'const':
            return c
        gs = self.st.guards if guards is None else guards
        if c in gs:
            return TRUE
        if not_(c) in gs:
            return FALSE
        if c.k == 'not':
            return not_(self.fold(c.a[0], gs))
        if c.k == 'and':
            return and_(*[self.fold(x, gs) for x in c.a])
        if c.k == 'or':
            return or_(*[self.fold(x, gs) for x in c.a])
        for g in gs:
            if g.k == 'or' and c in g.a:
                rest = [x for x in g.a if x is not c]
                if all(not_(x) in gs for x in rest):
                    return TRUE
            if g.k == 'not' and g.a[0].k == 'and' and c in g.a[0].a:
                rest = [x for x in g.a[0].a if x is not c]
                if all(x in gs for x in rest):
                    return FALSE
        if c.k == 'truth':
            if mk('cmp', 'is', c.a[0], NONE) in gs:
                return FALSE
            ts = self.types_of(c.a[0])
            if ts is not None:
                ts = self.narrow(c.a[0], ts)
                if ts and ts <= {'OpenFile', 'PathLike', 'IOBase', 'DatasetReader'}:
                    return TRUE
                if ts == {'None'}:
                    return FALSE
        if c.k == 'cmp' and c.a[0] == 'is' and c.a[2] is NONE:
            if mk('truth', c.a[1]) in gs:
                return FALSE
            for g in gs:
                if g.k == 'isinst' and g.a[0] is c.a[1]:
                    return FALSE
            ts = self.types_of(c.a[1])
            if ts is not None:
                ts = self.narrow(c.a[1], ts)
                if 'None' not in ts:
                    return FALSE
                if ts == {'None'}:
                    return TRUE
        if c.k == 'isinst' and c.a[1].k == 'tuple':
            names = {e.a[0] for e in c.a[1].a}
            for g in gs:
                if g.k == 'isinst' and g.a[0] is c.a[0] and g.a[1].k == 'tuple':
                    if {e.a[0] for e in g.a[1].a} <= names:
                        return TRUE
                if g.k == 'not' and g.a[0].k == 'isinst' and g.a[0].a[0] is c.a[0] and g.a[0].a[1].k == 'tuple':
                    if names <= {e.a[0] for e in g.a[0].a[1].a}:
                        return FALSE
            ts = self.types_of(c.a[0])
            if ts is not None:
                ts = self.narrow(c.a[0], ts)
                nm = {n.rsplit('.', 1)[-1] for n in names}
                res = {self.subtypes_match(n, nm) for n in ts}
                if len(res) == 1:
                    return const(res.pop())
        return c

    def prune(self, t):
        """Remove ite branches excluded by the current guards."""
        n = 0
        while isinstance(t, T) and t.k == 'ite' and n < 20:
            c = self.fold(t.a[0])
            if c.k != 'const':
                break
            t = t.a[1] if c.a[1] else t.a[2]
            n += 1
        return t

    # ------------------------------------------------------------------ freeze
    def freeze(self, v, depth=0):
        """Value snapshot of a possibly mutable object as a pure term."""
        if isinstance(v, tuple):
            return tuple(self.freeze(x, depth) for x in v)
        if not isinstance(v, T):
            return v
        if depth > 12:
            return v
        if v.k == 'obj':
            h = self.st.heap.get(v.a[1])
            if h is None:
                return v
            if h.kind in ('list', 'set'):
                return mk(h.kind, *[self.freeze(x, depth + 1) for x in h.data])
            if h.kind == 'dict':
                return mk('dict', *[tuple(self.freeze(y, depth + 1) for y in e) if isinstance(e, tuple)
                                    else self.freeze(e, depth + 1) for e in h.data])
            if h.kind == 'array':
                return h.data
            return v
        if v.k in ('tuple', 'ite', 'star', 'dstar', 'spread', 'starred', 'lv', 'after', 'sub', 'call', 'slice', 'upd', 'attr'):
            if not any(x.k == 'obj' for x in walk(v)):
                return v
            return rebuild(v.k, tuple(self.freeze(x, depth + 1) for x in v.a))
        return v

    # ------------------------------------------------------------------ merge
    def merge(self, c, a, b):
        """Join of state a (when c) and b (otherwise)."""
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        s.locks = a.locks if a.locks == b.locks else tuple(x for x in a.locks if x in b.locks)
        n = 0
        for x, y in zip(a.guards, b.guards):
            if x is not y:
                break
            n += 1
        s.guards = a.guards[:n]
        rest = [g for g in a.guards[n:] if g in b.guards[n:]]
        s.guards += tuple(rest)
        if c.k != 'const':
            imp = []
            for st_, k in ((a, c), (b, not_(c))):
                for g in st_.guards[n:]:
                    if g in rest or g is k or g.k in ('caught', 'excat', 'swallowed') or (k.k == 'and' and g in k.a):
                        continue
                    w = or_(not_(k), g)
                    if w.k != 'const' and w not in s.guards and w not in imp and len(imp) < 8:
                        imp.append(w)
            s.guards += tuple(imp)
        for fid in a.envs.keys() | b.envs.keys():
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is eb or eb is None:
                s.envs[fid] = ea
            elif ea is None:
                s.envs[fid] = eb
            else:
                s.envs[fid] = self._merge_map(c, ea, eb, UNDEF)
        for u in a.heap.keys() | b.heap.keys():
            ha, hb = a.heap.get(u), b.heap.get(u)
            if ha is hb:
                s.heap[u] = ha
            elif hb is None or ha is None:
                h = ha or hb
                if h.kind == 'res' and h.data.get('~open', FALSE) is not FALSE:
                    o = h.data['~open']
                    h = h.with_({**h.data, '~open': ite(c, o, FALSE) if hb is None else ite(c, FALSE, o)})
                s.heap[u] = h
            else:
                s.heap[u] = self._merge_obj(c, ha, hb, a.heap, b.heap)
        return s

    def _merge_map(self, c, ea, eb, missing):
        d = {}
        for n in list(ea) + [k for k in eb if k not in ea]:
            va, vb = ea.get(n, missing), eb.get(n, missing)
            if va is vb:
                d[n] = va
            elif isinstance(va, T) and isinstance(vb, T):
                d[n] = ite(c, va, vb)
            else:
                d[n] = va if va is not missing else vb
        return d

    def _merge_obj(self, c, ha, hb, heap_a=None, heap_b=None):
        k = ha.kind
        if ha.data is hb.data:
            return ha
        if k in ('list', 'set'):
            da, db = ha.data, hb.data
            n = 0
            while n < len(da) and n < len(db) and da[n] is db[n]:
                n += 1
            if len(da) == len(db) and not any(isinstance(x, T) and x.k == 'star' for x in da[n:] + db[n:]):
                return ha.with_(da[:n] + tuple(ite(c, x, y) for x, y in zip(da[n:], db[n:])))
            ex = [_guarded(x, c) for x in da[n:]] + [_guarded(x, not_(c)) for x in db[n:]]
            return ha.with_(da[:n] + tuple(ex))
        if k == 'dict':
            out = []
            kb = {e[0]: e[1] for e in hb.data if isinstance(e, tuple)}
            ka = {e[0]: e[1] for e in ha.data if isinstance(e, tuple)}
            sb = [e for e in hb.data if not isinstance(e, tuple)]
            pair = {}
            ua = [e for e in ha.data if not isinstance(e, tuple) and e.k == 'spread' and e not in sb]
            ub = [e for e in sb if e.k == 'spread' and e not in ha.data]
            if len(ua) == len(ub):
                pair = dict(zip(ua, ub))                     # alternatives of one spread
            for e in ha.data:
                if isinstance(e, tuple):
                    out.append((e[0], absent_ite(c, e[1], kb.get(e[0], ABSENT))))
                else:
                    out.append(e if e in sb else mk('spread', ite(c, e.a[0], pair[e].a[0])) if e in pair else _guarded(e, c))
            for e in hb.data:
                if isinstance(e, tuple):
                    if e[0] not in ka:
                        out.append((e[0], absent_ite(c, ABSENT, e[1])))
                elif e not in ha.data and e not in pair.values():
                    out.append(_guarded(e, not_(c)))
            return ha.with_(tuple(out))
        if k in ('inst', 'res'):
            return ha.with_(self._merge_map(c, ha.data, hb.data, UNDEF))
        if k == 'array':
            return ha.with_(ite(c, ha.data, hb.data))
        if k == 'stack':
            n = 0
            da, db = ha.data, hb.data
            while n < len(da) and n < len(db) and da[n] == db[n]:
                n += 1

            def some(e, cc, other):
                # an entry of one branch only, for something that exists in both: exited only if that branch was taken
                if e[0] == 'cm' and e[1].k == 'obj' and other is not None and e[1].a[1] in other:
                    return ('cm', ite(cc, e[1], NONE))
                return e
            return ha.with_(da[:n] + tuple(x if x in db else some(x, c, heap_b) for x in da[n:]) + tuple(some(x, not_(c), heap_a) for x in db[n:] if x not in da))
        return ha

    # ------------------------------------------------------------------ exceptions
    def exc_mro(self, name):
        out, todo = [], [name]
        while todo:
            n = todo.pop(0)
            if n in out:
                continue
            out.append(n)
            if n in self.classes:
                todo += [b.a[0] for b in self.classes[n].bases if b.k in ('cls', 'ext')]
            elif n in EXC_BASE:
                todo += EXC_BASE[n]
            elif n.startswith('builtins.'):
                c = getattr(_bi, n[9:], None)
                if isinstance(c, type) and issubclass(c, BaseException):
                    todo += ['builtins.' + b.__name__ for b in c.__mro__[1:]]
                elif c is None:
                    todo.append('builtins.Exception')
            else:
                todo.append('builtins.Exception')
        return out

    def mro(self, ci):
        """C3-like linearisation (simple, de-duplicated)."""
        out = []

        def rec(c):
            if c in out:
                out.remove(c)
            out.append(c)
            for b in c.bases:
                if b.k == 'cls':
                    rec(self.classes[b.a[0]])
        rec(ci)
        return out

    def mro_names(self, ci):
        if ci is None:
            return []
        out = []
        for c in self.mro(ci):
            out.append(c.qual)
            for b in c.bases:
                if b.k == 'ext':
                    out.append(b.a[0])
        return out

    def raise_(self, cls, val, node, implicit=False, via=None):
        r = Raise(cls, val, self.st.fork(), self.loc(node), implicit, self.st.guards, self.thread, via,
                  tuple(f.qual for f in self.frames))
        self.sinks[-1].append(r)
        if not implicit:
            msg = self.st.heap[val.a[1]].data.get('args', val) if isinstance(val, T) and val.k == 'obj' and val.a[1] in self.st.heap and \
                isinstance(self.st.heap[val.a[1]].data, dict) else val
            self.emit('raise', cls, node, val=msg, via=via)
            self.st = None
            raise Dead()
        return r

    def type_error(self, msg, node=None):
        self.raise_('builtins.TypeError', const(msg), node)

    @staticmethod
    def scalar(v):
        """None or a number that is known: neither iterable nor callable."""
        return v is NONE or is_const(v) and isinstance(v.a[1], (int, float, complex))

    def maybe(self, *clss, node=None, via=None):
        if len(self.sinks) == 1 and not self.sinks[0] and clss == ('?',) and not self.nopen:
            return
        for c in clss:
            self.sinks[-1].append(Raise(c, mk('excval', c), self.st.fork(), self.loc(node), True, self.st.guards,
                                        self.thread, via, tuple(f.qual for f in self.frames)))

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.node = s
            try:
                self.exec(s)
            except Dead:
                self.st = None
                return

    def exec(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.notes.append(f'unhandled statement {type(s).__name__} at {self.loc(s)}')
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Global(self, s):
        self.frames[-1].globals_ |= set(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals |= set(s.names)

    def s_Import(self, s):
        for a in s.names:
            if a.name.split('.')[0] == PKG:
                if a.name in self.mods:
                    self.load(a.name)
                top = a.name.split('.')[0]
                self.setvar(a.asname or top, mk('mod', a.name if a.asname else top))
            else:
                self.setvar(a.asname or a.name.split('.')[0], self.extn(a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            cur = self.frames[-1].mod.name
            isp = str(self.frames[-1].mod.path).endswith('__init__.py')
            parts = cur.split('.')
            parts = parts[:len(parts) - s.level + (1 if isp else 0)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            nm = a.asname or a.name
            if mod.split('.')[0] == PKG:
                if f'{mod}.{a.name}' in self.mods:
                    self.load(f'{mod}.{a.name}')
                    self.setvar(nm, mk('mod', f'{mod}.{a.name}'))
                    continue
                if mod in self.mods:
                    self.load(mod)
                    env = self.st.envs[self.mods[mod].fid]
                    if a.name in env:
                        self.setvar(nm, env[a.name])
                        continue
                    if a.name == '*':
                        for k, v in list(env.items()):
                            if not k.startswith('_'):
                                self.setvar(k, v)
                        continue
                self.setvar(nm, mk('unbound', f'{mod}.{a.name}'))
            else:
                self.setvar(nm, self.extn(f'{mod}.{a.name}'))

    def s_FunctionDef(self, s):
        self.setvar(s.name, self.make_func(s))

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, qual=None):
        fr = self.frames[-1]
        clsframe = getattr(fr, 'clsinfo', None)
        name = getattr(s, 'name', '<lambda>')
        qual = f'{fr.qual}.{name}'
        closure = tuple(fr.fv.closure) if fr.fv else tuple(getattr(fr, 'closure', ()))
        if fr.fv is not None:
            closure = closure + (fr.fid,)
            fr.has_closure = True
        fv = FuncVal(s, fr.mod, qual, closure, clsframe)
        fv.uid = self.new_uid()
        fv.defaults = [self.ev(d) for d in s.args.defaults]
        fv.kw_defaults = {a.arg: self.ev(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        self.funcs[fv.uid] = fv
        t = mk('fn', qual, fv.uid)
        for d in reversed(getattr(s, 'decorator_list', [])):
            dt = self.ev(d)
            fv.decos.append(dt)
            n = dt.a[0] if dt.k == 'ext' else None
            if n == 'builtins.property':
                t = mk('property', t, NONE)
            elif n in ('functools.cached_property',):
                t = mk('property', t, NONE)
                fv.kind = 'cached_property'
            elif n == 'builtins.staticmethod':
                t = mk('static', t)
            elif n == 'builtins.classmethod':
                t = mk('classm', t)
            elif n in ('contextlib.contextmanager',):
                fv.is_cm = True
            elif n in ('abc.abstractmethod', 'typing.overload', 'functools.wraps'):
                pass
            elif dt.k == 'attr' and dt.a[1] == 'setter' and dt.a[0].k == 'property':
                t = mk('property', dt.a[0].a[0], t)
            elif n in ('functools.lru_cache', 'functools.cache') or (dt.k == 'call' and dt.a[0] is ext('functools.lru_cache')):
                fv.kind = 'lru_cache'
            elif dt.k in ('fn', 'bound', 'partial'):
                t = self.call(dt, [t], {}, d)
            else:
                pass
        return t

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        qual = f'{fr.qual}.{s.name}'
        bases = [self.ev(b) for b in s.bases]
        ci = ClassInfo(qual, [b for b in bases if b.k in ('cls', 'ext')], fr.mod)
        ci.node = s
        self.classes[qual] = ci
        nf = Frame(self.new_uid(), None, fr.mod, qual, len(self.cleanups))
        nf.clsinfo = ci
        nf.closure = (tuple(fr.fv.closure) + (fr.fid,)) if fr.fv else ()
        self.st.envs[nf.fid] = {}
        self.frames.append(nf)
        is_enum = any('enum.' in n for n in self.mro_names(ci))
        self.exec_block(s.body)
        self.frames.pop()
        if self.st is None:
            raise Dead()
        ns = dict(self.st.envs.pop(nf.fid))
        ci.ns = ns
        if is_enum:
            for k, v in list(ns.items()):
                if k.startswith('__') or v.k in ('fn', 'property', 'static', 'classm', 'cls', 'bound'):
                    continue
                if v.k in ('const', 'tuple') or v.k not in ('obj',):
                    ns[k] = mk('enum', qual, k, v)
        t = mk('cls', qual)
        for d in reversed(s.decorator_list):
            self.ev(d)
        self.setvar(s.name, t)

    def enum_members(self, qual):
        out = []
        for c in self.mro(self.classes[qual]):
            for k, v in c.ns.items():
                if v.k == 'enum' and v not in out:
                    # aliases (same value) resolve to the first member
                    dup = [m for m in out if m.a[2] is v.a[2]]
                    out.append(v) if not dup else None
        return out

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        fr = self.frames[-1]
        if self.loopctx:
            self.emit('leaveloop', 'return', s)
        self.unwind(fr.base)
        fr.returns.append((self.st, v))
        self.st = None

    def unwind(self, base):
        saved = list(self.cleanups)
        while len(self.cleanups) > base:
            c = self.cleanups.pop()
            self.run_cleanup(c, False)
            if self.st is None:
                break
        self.cleanups = saved

    def run_cleanup(self, c, exceptional):
        if c[0] == 'cm':
            self.cm_exit(c[1], c[2], exceptional)
        else:
            self.exec_block(c[1])
            if self.st is None:
                raise Dead()

    def s_Break(self, s):
        ctx = self.loopctx[-1]
        self.emit('leaveloop', 'break', s)
        self.unwind(ctx['base'])
        ctx['breaks'].append(self.st)
        self.st = None

    def s_Continue(self, s):
        ctx = self.loopctx[-1]
        self.unwind(ctx['base'])
        ctx['conts'].append(self.st)
        self.st = None

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                b, k = self.ev(t.value), self.ev(t.slice)
                self.emit('mut', 'delitem', s, target=b, key=k, value=None)
                if b.k == 'obj' and b.a[0] == 'dict':
                    self.seth(b, tuple(e for e in self.h(b).data if not (isinstance(e, tuple) and e[0] is k)))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.emit('mut', 'delattr', s, target=b, key=const(t.attr), value=None)

    def s_Assert(self, s):
        c = self.fold(self.cond(self.ev(s.test)))
        if c is FALSE:
            self.raise_('builtins.AssertionError', NONE, s)
        if c is not TRUE:
            st = self.st
            self.st = st.fork(not_(c))
            self.maybe('builtins.AssertionError', node=s)
            self.st = st
            self.st.assume(c)

    def s_Raise(self, s):
        if s.exc is None:
            if self.curexc:
                rs, name = self.curexc[-1]
                self.emit('reraise', name, s, raises=rs)
                for r in rs:
                    self.sinks[-1].append(Raise(r.cls, r.val, self.st.fork(), r.loc, r.implicit, r.guards + tuple(
                        g for g in self.st.guards if g not in r.guards), r.thread, r.via, r.stack))
            self.st = None
            raise Dead()
        v = self.ev(s.exc)
        cause = self.ev(s.cause) if s.cause is not None else None
        self.raise_value(v, s, cause)

    def raise_value(self, v, node, cause=None):
        if v.k == 'ite':
            st0 = self.st
            c = self.fold(v.a[0])
            for cond_, val in ((c, v.a[1]), (not_(c), v.a[2])):
                if cond_ is FALSE:
                    continue
                self.st = st0.fork(cond_)
                try:
                    self.raise_value(val, node, cause)
                except Dead:
                    pass
            self.st = None
            raise Dead()
        if v.k == 'exc':
            for r in v.a[1]:
                self.sinks[-1].append(Raise(r, v, self.st.fork(), self.loc(node), False, self.st.guards, self.thread, None,
                                            tuple(f.qual for f in self.frames)))
            self.emit('reraise', '|'.join(v.a[1]), node)
            self.st = None
            raise Dead()
        if v.k in ('cls', 'ext'):
            cls = v.a[0]
        elif v.k == 'obj' and v.a[0] == 'inst':
            cls = self.h(v).meta.qual
        elif v.k == 'call' and v.a[0].k in ('ext', 'cls'):
            cls = v.a[0].a[0]
        else:
            cls = '?'
        self.raise_(cls, v, node, via=cause)

    def s_If(self, s):
        c = self.fold(self.cond(self.ev(s.test)))
        if c.k == 'const':
            self.exec_block(s.body if c.a[1] else s.orelse)
            return
        st0 = self.st
        self.st = st0.fork(c)
        self.exec_block(s.body)
        a = self.st
        self.st = st0.fork(not_(c))
        self.exec_block(s.orelse)
        self.st = self.merge(c, a, self.st)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not stars:
                vals = self.unpack(v, len(t.elts))
            else:
                i = stars[0]
                n = len(t.elts)
                items = self.concrete_items(v)
                if items is not None and len(items) >= n - 1:
                    k = len(items) - (n - 1)
                    vals = items[:i] + [self.alloc('list', tuple(items[i:i + k]))] + items[i + k:]
                else:
                    vals = [self.getitem(v, const(j)) for j in range(i)] + [mk('sub', self.freeze(v), mk('slice', const(i), NONE, NONE))] + \
                           [self.getitem(v, const(j - n)) for j in range(i + 1, n)]
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, node)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev(t.slice), v, node, t.value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def concrete_items(self, v):
        v = self.prune(v)
        if v.k in ('tuple', 'list') and not any(x.k in ('starred', 'star') for x in v.a):
            return list(v.a)
        if v.k == 'obj' and v.a[0] == 'list':
            d = self.h(v).data
            if not any(x.k in ('star', 'starred') for x in d):
                return list(d)
        if v.k == 'const' and isinstance(v.a[1], str):
            return [const(c) for c in v.a[1]]
        return None

    def unpack(self, v, n):
        v = self.prune(v)
        if self.scalar(v):
            self.type_error('cannot unpack')
        items = self.concrete_items(v)
        if items is not None and len(items) == n:
            return items
        if v.k == 'ite':
            a = self.unpack(v.a[1], n)
            b = self.unpack(v.a[2], n)
            return [ite(v.a[0], x, y) for x, y in zip(a, b)]
        if v.k == 'obj' and v.a[0] == 'gen':
            v = self.gen_list(v)
            return self.unpack(v, n)
        d = self.h(v).data if v.k == 'obj' and v.a[0] == 'list' else v.a if v.k in ('list', 'tuple') else ()
        if n > 1 and len(d) == 1 and d[0].k == 'star' and len(d[0].a[1]) == 1 and not d[0].a[2]:
            it, u = d[0].a[1][0]
            return [self.unroll(d[0].a[0], u, i) for i in range(n)]
        return [self.getitem(v, const(i)) for i in range(n)]

    def unroll(self, body, u, i):
        """Item i of a comprehension."""
        def f(x):
            if x.k == 'elem' and x.a[1] == u:
                c = x.a[0]
                if c.k in ('list', 'tuple') and not any(y.k in ('star', 'starred') for y in c.a) and i < len(c.a):
                    return c.a[i]
                return mk('sub', c, const(i))
            if x.k == 'index' and x.a[0] == u:
                return const(i)
            return None
        return subst(body, f)

    def setattr_(self, o, name, v, node):
        o = self.prune(o)
        if o.k == 'ite':
            st0 = self.st
            c = o.a[0]
            self.st = st0.fork(c)
            self.setattr_(o.a[1], name, v, node)
            a = self.st
            self.st = st0.fork(not_(c))
            self.setattr_(o.a[2], name, v, node)
            self.st = self.merge(c, a, self.st)
            return
        if o.k == 'obj' and o.a[0] == 'inst':
            p = self.class_lookup(self.h(o).meta, name)
            if p is not None and p.k == 'property' and p.a[1] is not NONE:
                self.call(mk('bound', p.a[1], o), [v], {}, node)
                return
            self.emit('setattr', name, node, target=o, value=v, old=self.h(o).data.get(name))
            d = dict(self.h(o).data)
            d[name] = v
            self.seth(o, d)
        elif o.k == 'obj' and o.a[0] == 'res':
            self.emit('setattr', name, node, target=o, value=v, old=None)
            d = dict(self.h(o).data)
            d[name] = v
            self.seth(o, d)
        elif o.k == 'cls':
            self.emit('setattr', name, node, target=o, value=v, old=None)
            if not self.mute:
                self.classes[o.a[0]].ns[name] = v
        elif o.k == 'mod':
            self.emit('setattr', name, node, target=o, value=v, old=None)
        else:
            self.emit('setattr', name, node, target=o, value=v, old=None)
            if o.k not in ('ext', 'fn', 'const'):
                self.replace_value(o, mk('updattr', o, name, self.freeze(v)))

    def setitem(self, b, k, v, node, bnode=None):
        b0, b = b, self.prune(b)
        if b.k == 'ite':
            st0 = self.st
            c = b.a[0]
            self.st = st0.fork(c)
            self.assume_value(b0, b.a[1])
            self.setitem(b.a[1], k, v, node)
            a = self.st
            self.st = st0.fork(not_(c))
            self.assume_value(b0, b.a[2])
            self.setitem(b.a[2], k, v, node)
            self.st = self.merge(c, a, self.st)
            return
        self.emit('mut', 'setitem', node, target=b, key=self.freeze(k), value=v)
        if b.k == 'obj' and b.a[0] == 'inst':
            m = self.class_lookup(self.h(b).meta, '__setitem__')
            if m is not None:
                self.call(self.getattr_(b, '__setitem__'), [k, v], {}, node)
            return
        if b.k == 'obj':
            h = self.h(b)
            if h.kind == 'dict':
                self.dict_set(b, k, v)
            elif h.kind == 'list':
                ok, i = pyval(k)
                if ok and isinstance(i, int) and -len(h.data) <= i < len(h.data) and not any(x.k == 'star' for x in h.data):
                    d = list(h.data)
                    d[i] = v
                    self.seth(b, tuple(d))
                else:
                    self.seth(b, (mk('star', mk('upd', self.freeze(b), self.freeze(k), self.freeze(v)), ((self.freeze(b), 0),), ()),))
            elif h.kind == 'array':
                self.seth(b, mk('upd', h.data, self.freeze(k), self.freeze(v)))
            elif h.kind == 'res':
                d = dict(h.data)
                d['[]' + repr(k)] = v
                self.seth(b, d)
            return
        root, path = b, []
        # store through a view: x[..][k] = v
        while root.k in ('sub', 'attr') and not (root.k == 'sub' and False):
            nxt = root.a[0]
            path.append(root)
            root = nxt
        ob = self.find_array_by_content(root) if path else None
        if ob is not None:
            self.seth(ob, mk('upd', self.h(ob).data, tup(*[p.a[1] if isinstance(p.a[1], T) else const(p.a[1]) for p in reversed(path)] + [self.freeze(k)]), self.freeze(v)))
        else:
            self.replace_value(b, mk('upd', b, self.freeze(k), self.freeze(v)))

    def assume_value(self, old, new):
        """Variables that hold a choice hold one of its values under the current assumption."""
        if new.k not in ('obj', 'const', 'sym'):
            self.replace_value(old, new)

    def find_array_by_content(self, content):
        for fid in [f.fid for f in reversed(self.frames)]:
            for v in self.st.envs.get(fid, {}).values():
                if isinstance(v, T) and v.k == 'obj' and v.a[0] == 'array' and self.h(v).data is content:
                    return v
        return None

    def replace_value(self, old, new):
        """In-place change of a value that has no heap identity: update every variable and attribute holding it."""
        for fid in {f.fid for f in self.frames}:
            env = self.st.envs.get(fid, {})
            if any(v is old for v in env.values()):
                self.st.envs[fid] = {k: (new if v is old else v) for k, v in env.items()}
        if old.k == 'sym':
            return
        for u, h in list(self.st.heap.items()):
            if h.kind == 'inst' and any(v is old for v in h.data.values()):
                self.st.heap[u] = h.with_({k: (new if v is old else v) for k, v in h.data.items()})

    def dict_set(self, b, k, v):
        h = self.h(b)
        k = self.freeze(k)
        out, done = [], False
        for e in h.data:
            if isinstance(e, tuple) and e[0] is k:
                out.append((k, v))
                done = True
            else:
                out.append(e)
        if not done:
            out.append((k, v))
        self.seth(b, tuple(out))

    def s_AugAssign(self, s):
        op = OPS[type(s.op)]
        rhs = self.ev(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            self.setvar(t.id, self.aug(old, op, rhs, s))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            old = self.getattr_(b, t.attr)
            new = self.aug(old, op, rhs, s)
            if new is not old:
                self.setattr_(b, t.attr, new, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            old = self.getitem(b, k)
            if old.k == 'obj' and old.a[0] in ('list', 'dict', 'set', 'array'):
                new = self.aug(old, op, rhs, s)
                if b.k == 'obj' and b.a[0] == 'dict':
                    self.emit('mut', 'setitem', s, target=b, key=self.freeze(k), value=new)
                    self.dict_set(b, k, new)
            else:
                self.setitem(b, k, self.binop(op, old, rhs), s)

    def aug(self, old, op, rhs, node):
        old = self.prune(old)
        if old.k == 'ite':
            return ite(old.a[0], self.aug(old.a[1], op, rhs, node), self.aug(old.a[2], op, rhs, node))
        if old.k == 'obj':
            kind = old.a[0]
            if kind == 'list' and op == '+':
                self.emit('mut', 'extend', node, target=old, key=None, value=rhs)
                self.list_extend(old, rhs)
                return old
            if kind == 'array':
                self.emit('mut', 'aug' + op, node, target=old, key=None, value=rhs)
                self.seth(old, self.binop(op, self.h(old).data, self.freeze(rhs)))
                return old
            if kind in ('dict', 'set') and op == '|':
                self.emit('mut', 'update', node, target=old, key=None, value=rhs)
                if kind == 'dict':
                    self.dict_update(old, rhs)
                return old
            return self.binop(op, old, rhs)
        new = self.binop(op, old, rhs)
        ts = self.types_of(old)
        if not (ts and ts <= {'int', 'float', 'str', 'bool', 'tuple', 'None', 'Affine', 'Window', 'CRS', 'Path'}):
            self.emit('mut', 'aug' + op, node, target=old, key=None, value=rhs)
            self.replace_value(old, new)
        return new

    # loops ---------------------------------------------------------------
    def s_For(self, s):
        it = self.ev(s.iter)

        def body(v):
            self.assign(s.target, v, s)
            self.exec_block(s.body)
        self.iterate(it, body, s)
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)

    def counting(self, s):
        """The counter of `while i < n: ...; i += 1` (i initially 0 and not otherwise changed), else None."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)) or s.orelse or len(s.body) < 2:
            return None
        i, last = t.left.id, s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and
                isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        bound = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Continue) or (isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in bound | {i}):
                    return None
        return i if self.lookup(i) is const(0) else None

    def s_While(self, s):
        i = self.counting(s)
        if i is not None:
            from . import models
            it = models.call_builtin(self, 'range', [self.ev(s.test.comparators[0])], {}, s)

            def cbody(v):
                self.setvar(i, v)
                self.exec_block(s.body[:-1])
            self.iterate(it, cbody, s)
            if self.st is not None:
                self.setvar(i, self.freeze(self.ev(s.test.comparators[0])))
            return
        L = self.new_uid()
        entries = [('loop', None, ((mk('while', const(L)), L),), ())]

        def body(v):
            c = self.fold(self.cond(self.ev(s.test)))
            if c is FALSE:
                raise Dead()
            self.st.assume(c)
            self.exec_block(s.body)
        self.run_entries(entries, body, s)

    def iterate(self, it, body, node):
        it = self.prune(it)
        if it.k == 'ite':
            st0 = self.st
            c = it.a[0]
            self.st = st0.fork(c)
            try:
                self.iterate(it.a[1], body, node)
            except Dead:
                self.st = None
            a = self.st
            self.st = st0.fork(not_(c))
            try:
                self.iterate(it.a[2], body, node)
            except Dead:
                self.st = None
            self.st = self.merge(c, a, self.st)
            return
        self.run_entries(self.entries(it, node), body, node)

    def entries(self, it, node):
        """Abstract elements of an iterable: ('one', v) or ('loop', v, loops, guards)."""
        it = self.prune(it)
        if self.scalar(it):
            self.type_error('not iterable', node)
        k = it.k
        if self.shape_hook is not None and (k in ('sub', 'upd', 'bin', 'attr') or k == 'call' and not (it.a[0].k == 'ext' and it.a[0].a[0].startswith('builtins.')) or k == 'obj' and it.a[0] == 'array'):
            s = self.shape_hook(self.freeze(it))
            if s:
                return [('one', self.getitem(it, const(i))) for i in range(s[0])]
        if k == 'obj':
            h = self.h(it)
            if h.kind in ('list', 'set'):
                return self._list_entries(h.data)
            if h.kind == 'dict':
                out = []
                for e in h.data:
                    if isinstance(e, tuple):
                        if e[1].k == 'ite' and ABSENT in e[1].a[1:]:
                            g = e[1].a[0] if e[1].a[2] is ABSENT else not_(e[1].a[0])
                            out.append(('loop', e[0], (), (g,)))
                        else:
                            out.append(('one', e[0]))
                    elif e.k == 'dstar':
                        out.append(('loop', e.a[0], e.a[2], e.a[3]))
                    else:
                        L = self.new_uid()
                        out.append(('loop', mk('elem', e.a[0], L), ((e.a[0], L),), ()))
                return out
            if h.kind == 'gen':
                return self.entries(self.gen_list(it), node)
            if h.kind == 'inst':
                m = self.class_lookup(h.meta, '__iter__')
                if m is not None:
                    return self.entries(self.call(self.getattr_(it, '__iter__'), [], {}, node), node)
            if h.kind == 'res' and h.meta and h.meta[0] == 'tqdm.auto.tqdm':
                ct = h.meta[1]
                if ct:
                    return self.entries(h.data.get('__arg0__', it), node) if '__arg0__' in h.data else [self._unk(it)]
            return [self._unk(it)]
        if k in ('tuple', 'list', 'set'):
            return self._list_entries(it.a)
        if k == 'call' and it.a[0].k == 'ext' and it.a[0].a[0] in ('csv.DictReader', 'csv.reader'):
            self.maybe('csv.Error', node=node)
        if k == 'dict':
            out = []
            for e in it.a:
                if isinstance(e, tuple):
                    out.append(('one', e[0]))
                elif e.k == 'dstar':
                    out.append(('loop', e.a[0], e.a[2], e.a[3]))
                else:
                    out.append(self._unk(e.a[0]))
            return out
        if k == 'view':
            kind, d = it.a
            if d.k == 'obj' and d.a[0] == 'dict':
                d_ = self.h(d).data
            elif d.k == 'dict':
                d_ = d.a
            else:
                L = self.new_uid()
                key = mk('elem', self.freeze(d), L)
                val = self.getitem(d, key)
                v = key if kind == 'keys' else val if kind == 'values' else tup(key, val)
                return [('loop', v, ((self.freeze(d), L),), ())]
            out = []
            for e in d_:
                if isinstance(e, tuple):
                    key, val, loops, gs, one = e[0], e[1], (), (), True
                    if val.k == 'ite' and ABSENT in val.a[1:]:
                        gs = (val.a[0] if val.a[2] is ABSENT else not_(val.a[0]),)
                        val = val.a[1] if val.a[2] is ABSENT else val.a[2]
                        one = False
                elif e.k == 'dstar':
                    key, val, loops, gs = e.a
                    one = False
                else:
                    L = self.new_uid()
                    key = mk('elem', e.a[0], L)
                    val, loops, gs, one = mk('sub', e.a[0], key), ((e.a[0], L),), (), False
                v = key if kind == 'keys' else val if kind == 'values' else tup(key, val)
                out.append(('one', v) if one else ('loop', v, loops, gs))
            return out
        if k == 'zip':
            parts = [self.entries(x, node) for x in it.a]
            if all(all(e[0] == 'one' for e in p) for p in parts):
                n = min(len(p) for p in parts) if parts else 0
                return [('one', tup(*[p[i][1] for p in parts])) for i in range(n)]
            if all(len(p) == 1 and p[0][0] == 'loop' for p in parts) and not any(p[0][3] for p in parts[1:]):
                # lock-step iteration of summarised sequences: use the loop of the first
                loops = parts[0][0][2]
                vals = [parts[0][0][1]]
                for p in parts[1:]:
                    v, lp = p[0][1], p[0][2]
                    if len(lp) == len(loops):
                        m = {l[1]: l2[1] for l, l2 in zip(lp, loops)}
                        v = self.reloop(v, m)
                    vals.append(v)
                src = tuple((l[0], l[1]) for l in loops)
                return [('loop', tup(*vals), src, parts[0][0][3])]
            L = self.new_uid()
            vals = []
            for x, p in zip(it.a, parts):
                if len(p) == 1 and p[0][0] == 'loop' and len(p[0][2]) == 1:
                    vals.append(self.reloop(p[0][1], {p[0][2][0][1]: L}))
                else:
                    vals.append(mk('elem', self.freeze(x), L))
            return [('loop', tup(*vals), ((mk('zip', *[self.freeze(x) for x in it.a]), L),), ())]
        if k == 'enumerate':
            p = self.entries(it.a[0], node)
            out = []
            ok, start = pyval(it.a[1])
            for i, e in enumerate(p):
                if e[0] == 'one' and all(x[0] == 'one' for x in p[:i]):
                    out.append(('one', tup(const(i + (start if ok else 0)), e[1])))
                else:
                    L = e[2][-1][1] if e[0] == 'loop' and e[2] else 0
                    idx = mk('index', L)
                    if ok and start:
                        idx = mk('bin', '+', idx, const(start))
                    out.append(('loop', tup(idx, e[1]), e[2], e[3]) if e[0] == 'loop' else ('one', tup(idx, e[1])))
            return out
        if k == 'product':
            parts = [self.entries(x, node) for x in it.a]
            out = [((), (), ())]
            vals = [((), (), (), True)]
            for p in parts:
                vals = [(v + (e[1],), l + (e[2] if e[0] == 'loop' else ()), g + (e[3] if e[0] == 'loop' else ()),
                         one and e[0] == 'one') for v, l, g, one in vals for e in p]
            return [('one', tup(*v)) if one else ('loop', tup(*v), l, g) for v, l, g, one in vals]
        if k == 'mapc':
            f, seqs = it.a[0], it.a[1:]
            p = self.entries(seqs[0] if len(seqs) == 1 else mk('zip', *seqs), node)
            out = []
            for e in p:
                args = [e[1]] if len(seqs) == 1 else list(e[1].a)
                v = self.call(f, args, {}, node)
                out.append((e[0], v) + tuple(e[2:]))
            return out
        if k == 'call' and it.a[0].k == 'ext':
            n = it.a[0].a[0]
            if n == 'builtins.range':
                ok, vals = pyval(tup(*it.a[1]))
                if ok and len(range(*vals)) <= MAXUNROLL:
                    return [('one', const(i)) for i in range(*vals)]
                if len(it.a[1]) == 1 and it.a[1][0].k == 'call' and it.a[1][0].a[0] is ext('builtins.len') and len(it.a[1][0].a[1]) == 1:
                    # index iteration over a sequence
                    X = it.a[1][0].a[1][0]
                    p = self._list_entries(X.a) if X.k in ('tuple', 'list') else [self._unk(X)] if X.k not in ('dict', 'set') else []
                    if p and all(e[0] == 'one' for e in p[:-1]) and p[-1][0] == 'loop' and p[-1][2] and len(p) <= MAXUNROLL:
                        return [('one', const(i)) for i in range(len(p) - 1)] + [('loop', mk('index', p[-1][2][-1][1]), p[-1][2], p[-1][3])]
            if n in PASS_ITER and it.a[1]:
                return self.entries(it.a[1][0], node)
        if k == 'const' and isinstance(it.a[1], str) and len(it.a[1]) <= MAXUNROLL:
            return [('one', const(c)) for c in it.a[1]]
        if k == 'cls':
            ci = self.classes[it.a[0]]
            if any('enum.' in n for n in self.mro_names(ci)):
                return [('one', m) for m in self.enum_members(it.a[0])]
        return [self._unk(it)]

    def reloop(self, v, m):
        if not isinstance(v, T):
            return v

        def f(t):
            if t.k == 'elem' and t.a[1] in m:
                return mk('elem', t.a[0], m[t.a[1]])
            if t.k == 'index' and t.a[0] in m:
                return mk('index', m[t.a[0]])
            return None
        return subst(v, f)

    def _unk(self, it):
        L = self.new_uid()
        fz = self.freeze(it)
        return ('loop', mk('elem', fz, L), ((fz, L),), ())

    def _list_entries(self, data):
        out = []
        for e in data:
            if e.k == 'star':
                out.append(('loop', e.a[0], e.a[1], e.a[2]))
            elif e.k == 'starred':
                out.append(self._unk(e.a[0]))
            else:
                out.append(('one', e))
        return out

    def run_entries(self, ents, body, node):
        ctx = dict(base=len(self.cleanups), breaks=[], conts=[])
        self.loopctx.append(ctx)
        try:
            if len(ents) > MAXUNROLL and all(e[0] == 'one' for e in ents):
                L = self.new_uid()
                ents = [('loop', mk('elem', mk('list', *[self.freeze(e[1]) for e in ents]), L), ((mk('many', L), L),), ())]
            for e in ents:
                if self.st is None:
                    break
                if e[0] == 'one':
                    self.run_body(body, e[1], ctx)
                elif not e[2]:
                    c = self.fold(and_(*e[3]))
                    if c is FALSE:
                        continue
                    st0 = self.st
                    self.st = st0.fork(c)
                    self.run_body(body, self.prune(e[1]), ctx)
                    self.st = self.merge(c, self.st, st0.fork(not_(c)))
                else:
                    self.run_loop(body, e, ctx, node)
            plain = all(e[0] == 'one' for e in ents)
            for b in reversed(ctx['breaks']) if plain else ctx['breaks']:
                # an unrolled loop: the later break is taken only if the earlier one was not
                base = [g for g in b.guards if self.st is None or g not in self.st.guards] if plain and self.st is not None else ()
                self.st = self.merge(and_(*base) if base else mk('brk', self.new_uid()), b, self.st)
        finally:
            self.loopctx.pop()

    def run_body(self, body, v, ctx):
        try:
            body(v)
        except Dead:
            self.st = None
        for c in ctx['conts']:
            if self.st is None:
                self.st = c
            else:
                # discriminate by the conditions of the continue path
                base = [g for g in c.guards if g not in self.st.guards]
                self.st = self.merge(and_(*base) if base else mk('cont', self.new_uid()), c, self.st)
        ctx['conts'] = []

    def run_loop(self, body, e, ctx, node):
        _, val, loops, gs = e
        st0 = self.st
        oldloops, olditers = self.loops, self.iters
        self.loops = oldloops + loops
        self.iters = olditers + (self.new_uid(),)
        L = loops[-1][1]
        nfr = len(self.frames)
        # dry pass: which variables and objects change
        if self.mute:
            self.st = st0.fork(*gs)
            b0 = len(ctx['breaks'])
            self.run_body(body, self.prune(val) if val is not None else val, ctx)
            end = self.st
            del ctx['breaks'][b0:]
            self.loops, self.iters = oldloops, olditers
            if end is None:
                self.st = st0
                return
            self.st = self.merge(mk('once', L), end, st0)
            return
        self.mute += 1
        self.sinks.append([])
        self.st = st0.fork(*gs)
        b0 = len(ctx['breaks'])
        self.run_body(body, val, ctx)
        dry = [x for x in [self.st] + ctx['breaks'][b0:] if x is not None]
        del ctx['breaks'][b0:]
        self.sinks.pop()
        self.mute -= 1
        changed_env, changed_heap = set(), set()
        for d in dry:
            for fid, env in d.envs.items():
                e0 = st0.envs.get(fid)
                if e0 is None or e0 is env:
                    continue
                for n, v in env.items():
                    if n in e0 and e0[n] is not v and e0[n] is not UNDEF:
                        changed_env.add((fid, n))
            for u, h in d.heap.items():
                h0 = st0.heap.get(u)
                if h0 is not None and h0 is not h and h0.data != h.data:
                    changed_heap.add(u)
        st1 = st0.fork(*gs)
        for fid, n in changed_env:
            env = dict(st1.envs[fid])
            env[n] = mk('lv', L, n, self._frz(st0, env[n]))
            self.lv_types[env[n]] = self._types_in(dry, [d.envs[fid][n] for d in dry if n in d.envs.get(fid, {})])
            st1.envs[fid] = env
        for u in changed_heap:
            h0 = st0.heap[u]
            if h0.kind == 'array':
                st1.heap[u] = h0.with_(mk('lv', L, f'#{u}', h0.data))
            elif h0.kind in ('inst', 'res'):
                d = dict(h0.data)
                for x in dry:
                    hx = x.heap.get(u)
                    for n, v in hx.data.items():
                        if n in h0.data and h0.data[n] is not v and isinstance(h0.data[n], T):
                            d[n] = mk('lv', L, f'#{u}.{n}', h0.data[n])
                            self.lv_types[d[n]] = self._types_in(dry, [y.heap[u].data[n] for y in dry if u in y.heap and n in y.heap[u].data])
                st1.heap[u] = h0.with_(d)
            elif h0.kind == 'dict':
                newvals = {}
                for x in dry:
                    for en in x.heap[u].data:
                        if isinstance(en, tuple):
                            newvals[en[0]] = en[1]
                st1.heap[u] = h0.with_(tuple((en[0], mk('lv', L, f'#{u}[]', en[1])) if isinstance(en, tuple) and newvals.get(en[0]) is not en[1]
                                             and en[0] in newvals else en for en in h0.data))
        self.st = st1
        base_heap = dict(st1.heap)
        base_env = {f: dict(x) for f, x in st1.envs.items()}
        self.run_body(body, self.prune(val) if val is not None else val, ctx)
        end = self.st
        self.loops, self.iters = oldloops, olditers
        out = st0.fork()
        if end is not None:
            out.locks = st0.locks
            for fid, n in changed_env:
                x = base_env[fid].get(n)
                if x is not None and x.k == 'lv' and n in end.envs.get(fid, {}):
                    self.steps[x] = self._frz(end, end.envs[fid][n])
            exg = tuple(g for g in end.guards if g not in st0.guards)
            for u, h in end.heap.items():
                h0 = base_heap.get(u)
                if h0 is None:
                    out.heap[u] = h
                    continue
                if h is h0:
                    continue
                hs = st0.heap[u]
                if h.kind in ('list', 'set'):
                    d0, d1 = hs.data, h.data
                    n = len(d0)
                    if d1[:n] == d0:
                        out.heap[u] = h.with_(d0 + tuple(_starred_by(x, loops, exg) for x in d1[n:]))
                    else:
                        out.heap[u] = h.with_((mk('star', mk('after', L, f'#{u}', mk('list', *d0), mk('list', *d1)), loops, ()),))
                elif h.kind == 'dict':
                    keys0 = {en[0]: en[1] for en in h0.data if isinstance(en, tuple)}
                    keysS = {en[0]: en[1] for en in hs.data if isinstance(en, tuple)}
                    res = []
                    for en in h.data:
                        if isinstance(en, tuple):
                            k, v = en
                            if k in keys0:
                                res.append((k, mk('after', L, f'#{u}[]', keysS[k], v) if v is not keys0[k] else keysS[k]))
                            else:
                                g2 = exg
                                if v.k == 'ite' and ABSENT in v.a[1:]:
                                    g2 = g2 + (v.a[0] if v.a[2] is ABSENT else not_(v.a[0]),)
                                    v = v.a[1] if v.a[2] is ABSENT else v.a[2]
                                res.append(mk('dstar', k, v, loops, g2))
                        elif en in h0.data:
                            res.append(en)
                        elif en.k == 'dstar':
                            res.append(mk('dstar', en.a[0], en.a[1], loops + en.a[2], exg + en.a[3]))
                        else:
                            res.append(en)
                    out.heap[u] = h.with_(tuple(res))
                elif h.kind == 'array':
                    out.heap[u] = h.with_(mk('after', L, f'#{u}', hs.data, h.data))
                elif h.kind in ('inst', 'res'):
                    d = {}
                    for n, v in h.data.items():
                        if n not in hs.data:
                            d[n] = v
                        elif v is h0.data.get(n):
                            d[n] = hs.data[n]
                        elif isinstance(v, T) and isinstance(hs.data[n], T):
                            d[n] = mk('after', L, f'#{u}.{n}', hs.data[n], v)
                        else:
                            d[n] = v
                    out.heap[u] = h.with_(d)
                else:
                    out.heap[u] = h
            for fid, env in end.envs.items():
                e0 = base_env.get(fid)
                if e0 is None:
                    out.envs[fid] = env
                    continue
                eS = st0.envs[fid]
                if env == e0:
                    continue
                d = dict(eS)
                for n, v in env.items():
                    if n not in eS or eS[n] is UNDEF:
                        d[n] = v
                    elif v is e0.get(n):
                        d[n] = eS[n]
                    else:
                        s0 = eS[n]
                        d[n] = mk('after', L, n, self._frz(st0, s0), self._frz(end, v)) if not (v.k == 'obj' and s0 is v) else v
                out.envs[fid] = d
            self.st = out
        else:
            self.st = out   # zero iterations remain possible

    def _frz(self, st, v):
        save = self.st
        self.st = st
        try:
            return self.freeze(v)
        finally:
            self.st = save

    # try / with -----------------------------------------------------------
    def s_Try(self, s):
        has_fin = bool(s.finalbody)
        if has_fin:
            self.cleanups.append(('fin', s.finalbody))
            self.sinks.append([])
        self.try_core(s)
        if has_fin:
            self.cleanups.pop()
            rs = self.sinks.pop()
            st = self.st
            if rs:
                tag, self.exctag = self.exctag, 'exc'
                self.st = rs[-1].st.fork()
                self.st.locks = st.locks if st is not None else self.st.locks
                try:
                    self.exec_block(s.finalbody)
                except Dead:
                    self.st = None
                if self.st is not None:
                    self.clean_states(rs, lambda: self.exec_block(s.finalbody))
                    self.sinks[-1].extend(rs)
                self.exctag = tag
            self.st = st
            if self.st is not None:
                self.exec_block(s.finalbody)

    s_TryStar = s_Try

    def try_core(self, s):
        if not s.handlers:
            self.exec_block(s.body)
            return
        st_in = self.st
        self.sinks.append([])
        self.exec_block(s.body)
        rs = self.sinks.pop()
        ok = self.st
        if ok is not None and s.orelse:
            self.exec_block(s.orelse)
            ok = self.st
        hs = []
        self.st = st_in.fork()
        for h in s.handlers:
            if h.type is None:
                names = ['builtins.BaseException']
            else:
                t = self.ev(h.type)
                cl = self.flat_classes(t)
                names = [c.a[0] for c in cl] if cl is not None else ['builtins.Exception']
            hs.append((h, names))
        groups = [[] for _ in hs]
        for r in rs:
            mro = self.exc_mro(r.cls)
            for i, (h, names) in enumerate(hs):
                if any(n in mro for n in names):
                    groups[i].append(r)
                    break
            else:
                self.sinks[-1].append(r)
        # an unspecified failure of an external call may be one that a more specific handler names
        unk = [r for r in rs if r.cls == '?']
        maybe_grp = [False] * len(hs)
        if unk:
            mro = self.exc_mro('?')
            for i, (h, names) in enumerate(hs):
                if any(n in mro for n in names):
                    break
                if not groups[i]:
                    groups[i] = unk[-1:]
                    maybe_grp[i] = True
        outs = []
        self.emit('try', '', s, groups=[(hs[i][1], [(r.cls, str(r.loc)) for r in groups[i]]) for i in range(len(hs))])
        for (h, names), g in zip(hs, groups):
            if not g:
                continue
            # join of the states at the raise points
            for r in g:
                self.settle(r.st)
            st = g[-1].st.fork()
            st.guards = st_in.guards
            st.locks = st_in.locks
            seen = 0
            for r in g[:-1]:
                if r.st is not None and seen < 6:
                    x = r.st.fork()
                    x.guards, x.locks = st_in.guards, st_in.locks
                    st = self.merge(mk('excat', str(r.loc), r.cls), x, st)
                    seen += 1
            self.st = st
            classes = tuple(sorted({r.cls for r in g}))
            ev = mk('exc', self.new_uid(), classes)
            self.emit('handler', '|'.join(names), h, classes=classes, raises=[(r.cls, str(r.loc), r.implicit) for r in g], handler=h)
            if h.name:
                self.setvar(h.name, ev)
            self.curexc.append((g, '|'.join(classes)))
            hc = mk('caught', self.new_uid())
            self.st.guards = self.st.guards + (hc,)
            fr, lc = self.frames[-1], self.loopctx[-1] if self.loopctx else None
            left = lambda: len(fr.returns) + (len(lc['conts']) + len(lc['breaks']) if lc else 0)
            n0, st0 = left(), self.st
            self.exec_block(h.body)
            self.curexc.pop()
            if self.st is None and left() > n0:
                self.st = st0.fork()
                self.emit('handled', '|'.join(names), h, classes=classes, raises=[(r.cls, str(r.loc), r.implicit) for r in g])
                self.st = None
            if self.st is not None:
                self.emit('handled', '|'.join(names), h, classes=classes, raises=[(r.cls, str(r.loc), r.implicit) for r in g])
                self.st.guards = tuple(x for x in self.st.guards if x is not hc)
                outs.append((hc, self.st))
        self.st = ok
        for hc, o in outs:
            self.st = self.merge(hc, o, self.st) if self.st is not None else o

    def s_With(self, s):
        self.with_items(s, list(s.items))

    s_AsyncWith = s_With

    def with_items(self, s, items):
        if not items:
            self.exec_block(s.body)
            return
        it = items[0]
        cm = self.ev(it.context_expr)

        def body(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
            self.with_items(s, items[1:])
        self.with_cm(cm, body, it.context_expr)

    def with_cm(self, cm, body, node):
        cm = self.prune(cm)
        if cm.k == 'ite':
            st0 = self.st
            c = cm.a[0]
            self.st = st0.fork(c)
            try:
                self.with_cm(cm.a[1], body, node)
            except Dead:
                self.st = None
            a = self.st
            self.st = st0.fork(not_(c))
            try:
                self.with_cm(cm.a[2], body, node)
            except Dead:
                self.st = None
            self.st = self.merge(c, a, self.st)
            if self.st is None:
                raise Dead()
            return
        if cm.k == 'obj' and cm.a[0] == 'gen' and self.h(cm).meta[0].is_cm:
            caller = self.frames[-1]
            nfr = len(self.frames)

            def on_yield(v):
                inner = self.frames[nfr:]
                del self.frames[nfr:]
                try:
                    body(v)
                finally:
                    self.frames.extend(inner)
                if self.st is None:
                    raise Dead()
            try:
                self.run_gen(cm, on_yield)
            except Dead:
                self.st = None
            if self.st is None:
                raise Dead()
            return
        v = self.cm_enter(cm, node)
        self.cleanups.append(('cm', cm, node))
        self.sinks.append([])
        try:
            body(v)
        except Dead:
            self.st = None
        rs = self.sinks.pop()
        self.cleanups.pop()
        ok = self.st
        if rs:
            tag, self.exctag = self.exctag, 'exc'
            self.st = rs[-1].st.fork()
            swallow = False
            try:
                swallow = self.cm_exit(cm, node, True)
            except Dead:
                pass
            self.clean_states(rs, lambda: self.cm_exit(cm, node, True))
            self.exctag = tag
            sup = self.suppressed(cm)
            if swallow or sup:
                keep = []
                hit = []
                for r in rs:
                    if sup and not any(n in self.exc_mro(r.cls) for n in sup):
                        keep.append(r)
                        if r.cls == '?':
                            hit.append(r)
                    else:
                        hit.append(r)
                if hit:
                    self.st = hit[-1].st.fork()
                    self.emit('handled', 'with', node, classes=tuple(sorted({r.cls for r in hit})),
                              raises=[(r.cls, str(r.loc), r.implicit) for r in hit])
                    x = self.st
                    x.locks = ok.locks if ok is not None else x.locks
                    ok = self.merge(mk('swallowed', self.new_uid()), x, ok)
                rs = keep
            self.sinks[-1].extend(rs)
        self.st = ok
        if self.st is not None:
            self.cm_exit(cm, node, False)

    def clean_states(self, rs, run):
        """Apply the effect of an exceptional clean-up on open resources to the states of the exceptions passing it."""
        if not self.nopen:
            return
        save = (self.st, self.mute, self.node)
        groups = {}
        for r in rs:
            if r.st is None:
                continue
            k = tuple((i, h.data if h.kind == 'stack' else h.data.get('~open')) for i, h in r.st.heap.items()
                      if h.kind == 'stack' or (h.kind == 'res' and '~open' in h.data))
            groups.setdefault(k, []).append(r)
        self.mute += 1
        for k, g in groups.items():
            if not k:
                continue
            self.st = g[0].st.fork()
            common = set(self.st.guards).intersection(*[set(r.st.guards) for r in g[1:]])
            self.st.guards = tuple(x for x in self.st.guards if x in common)
            self.sinks.append([])
            try:
                run()
            except Dead:
                pass
            self.sinks.pop()
            if self.st is None:
                continue
            for i, old in k:
                h = self.st.heap.get(i)
                if h is None or (h.data if h.kind == 'stack' else h.data.get('~open')) == old:
                    continue
                for r in g:
                    r.st.heap[i] = h
        self.st, self.mute, self.node = save

    def settle(self, st):
        """Simplify the open states of resources with the guards of a state, before these are dropped."""
        if st is None or not self.nopen:
            return
        save, self.st = self.st, st
        for i, h in list(st.heap.items()):
            if h.kind == 'res' and isinstance(h.data, dict) and '~open' in h.data and h.data['~open'].k != 'const':
                v = self.fold(self.prune(h.data['~open']))
                if v is FALSE:
                    st.heap[i] = h.with_({**h.data, '~open': v})
        self.st = save

    def set_open(self, o, v):
        h = self.st.heap.get(o.a[1])
        if h is not None and h.kind == 'res' and '~open' in h.data:
            self.st.heap[o.a[1]] = h.with_({**h.data, '~open': v})

    def close_res(self, cm):
        if cm.k == 'obj':
            self.set_open(cm, FALSE)
            h = self.st.heap.get(cm.a[1])
            if h is not None and h.kind == 'res' and h.meta[0] == 'contextlib.closing':
                a = h.data.get('__arg0__')
                if a is not None and a.k == 'obj':
                    self.set_open(a, FALSE)
            return
        for i, h in list(self.st.heap.items()):
            if h.kind == 'res' and h.meta[0] == 'fsspec.file' and h.meta[1] is cm and '~open' in h.data:
                self.st.heap[i] = h.with_({**h.data, '~open': FALSE})

    def suppressed(self, cm):
        if cm.k == 'obj' and cm.a[0] == 'res' and self.h(cm).meta and self.h(cm).meta[0] == 'contextlib.suppress':
            ct = self.h(cm).meta[1]
            return [x.a[0] for x in ct.a[1] if x.k in ('ext', 'cls')]
        return None

    def cm_enter(self, cm, node):
        cm = self.prune(cm)
        if cm.k == 'ite':
            st0 = self.st
            c = cm.a[0]
            self.st = st0.fork(c)
            try:
                va = self.cm_enter(cm.a[1], node)
                a = self.st
            except Dead:
                a, va = None, NONE
            self.st = st0.fork(not_(c))
            try:
                vb = self.cm_enter(cm.a[2], node)
                b = self.st
            except Dead:
                b, vb = None, NONE
            self.st = self.merge(c, a, b)
            if self.st is None:
                raise Dead()
            return va if b is None else vb if a is None else ite(c, va, vb)
        if cm.k == 'obj':
            h = self.h(cm)
            if h.kind == 'inst':
                m = self.class_lookup(h.meta, '__enter__')
                if m is not None:
                    v = self.call(self.getattr_(cm, '__enter__'), [], {}, node)
                    self.emit('enter', h.meta.qual, node, cm=cm, value=v)
                    return v
            if h.kind == 'stack':
                self.emit('enter', 'contextlib.ExitStack', node, cm=cm, value=cm)
                return cm
            if h.kind == 'res':
                name = h.meta[0]
                self.emit('enter', name, node, cm=cm, value=cm)
                if name == 'threading.Lock':
                    self.st.locks = self.st.locks + (cm,)
                if name in ('contextlib.closing', 'contextlib.nullcontext'):
                    return h.data.get('__arg0__', NONE)
                return cm
            if h.kind == 'gen' and h.meta[0].is_cm:
                return self.gen_enter(cm, node)
        ts = self.types_of(cm)
        if (ts and 'OpenFile' in ts) or mk('isinst', cm, tup(ext('fsspec.core.OpenFile'))) in self.st.guards:
            self.maybe('builtins.FileNotFoundError', 'builtins.OSError', '?', node=node)
            self.nopen += 1
            f = self.alloc('res', {'__types__': ('IOBase',), '~open': TRUE}, ('fsspec.file', cm))
            self.emit('enter', 'fsspec.OpenFile', node, cm=cm, value=f)
            self.emit('openfile', 'fsspec.OpenFile', node, ofile=cm, value=f)
            return f
        self.emit('enter', '?', node, cm=cm, value=mk('entered', self.freeze(cm)))
        name = cm.a[0].a[1] if cm.k == 'call' and cm.a[0].k == 'attr' else ''
        if name == 'open':
            self.maybe('builtins.FileNotFoundError', 'builtins.OSError', node=node)
        return mk('entered', self.freeze(cm))

    def gen_enter(self, cm, node):
        """Enter a generator based context manager inside an ExitStack: its inner managers stay entered."""
        got = {}
        base = len(self.cleanups)

        def on_yield(v):
            got['v'], got['st'] = v, self.st
            got['cl'] = list(self.cleanups[base:])
            self.st = None
            raise Dead()
        try:
            self.run_gen(cm, on_yield)
        except Dead:
            pass
        if 'st' not in got:
            raise Dead()
        self.st = got['st']
        # the exceptional exits inside run_gen are not real: the generator is suspended
        d = self.h(cm)
        self.st.heap[cm.a[1]] = HObj('gen', ('entered', tuple(got['cl'])), d.meta)
        return got['v']

    def cm_exit(self, cm, node, exceptional):
        cm = self.prune(cm)
        if cm.k == 'ite':
            st0 = self.st
            c = cm.a[0]
            self.st = st0.fork(c)
            try:
                self.cm_exit(cm.a[1], node, exceptional)
            except Dead:
                pass
            a = self.st
            self.st = st0.fork(not_(c))
            try:
                self.cm_exit(cm.a[2], node, exceptional)
            except Dead:
                pass
            self.st = self.merge(c, a, self.st)
            return False
        if cm.k == 'obj':
            h = self.st.heap.get(cm.a[1])
            if h is None:
                return False
            if h.kind == 'inst':
                m = self.class_lookup(h.meta, '__exit__')
                if m is not None:
                    self.emit('exit', h.meta.qual, node, cm=cm, exceptional=exceptional)
                    a = [mk('excinfo', const(i)) for i in range(3)] if exceptional else [NONE] * 3
                    r = self.call(self.getattr_(cm, '__exit__'), a, {}, node)
                    return self.cond(r) is TRUE
                return False
            if h.kind == 'stack':
                self.stack_exit(cm, node, exceptional)
                self.emit('exit', 'contextlib.ExitStack', node, cm=cm, exceptional=exceptional)
                return False
            if h.kind == 'res':
                self.emit('exit', h.meta[0], node, cm=cm, exceptional=exceptional)
                self.close_res(cm)
                if h.meta[0] == 'threading.Lock':
                    self.st.locks = tuple(x for x in self.st.locks if x is not cm)
                return False
            if h.kind == 'gen':
                if isinstance(h.data, tuple) and h.data and h.data[0] == 'entered':
                    for c in reversed(h.data[1]):
                        self.run_cleanup(c, exceptional)
                self.emit('exit', 'generator', node, cm=cm, exceptional=exceptional)
                return False
        if cm is NONE:
            return False
        self.emit('exit', '?', node, cm=cm, exceptional=exceptional)
        self.close_res(cm)
        return False

    def stack_exit(self, cm, node, exceptional):
        data = self.h(cm).data
        self.seth(cm, ())
        for e in reversed(data):
            if e[0] == 'cm':
                self.cm_exit(e[1], node, exceptional)
            elif e[0] == 'cb':
                try:
                    self.call(e[1], list(e[2]), dict(e[3]), node)
                except Dead:
                    pass

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.notes.append(f'unhandled expression {type(n).__name__}')
            return mk('opaque', type(n).__name__, self.new_uid())
        old = self.node
        self.node = n
        r = m(n)
        self.node = old
        return r

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += self.spread(self.ev(e.value))
            else:
                out.append(self.ev(e))
        return tup(*out)

    def spread(self, v):
        v = self.prune(v)
        items = self.concrete_items(v)
        if items is not None:
            return items
        if v.k == 'obj' and v.a[0] == 'list':
            return list(self.h(v).data)
        if v.k in ('view', 'zip', 'enumerate', 'product', 'mapc') or (v.k == 'obj' and v.a[0] in ('gen', 'dict', 'set')) or \
                (v.k == 'call' and v.a[0].k == 'ext' and v.a[0].a[0] == 'builtins.range'):
            out = []
            for e in self.entries(v, self.node):
                if e[0] == 'one':
                    out.append(e[1])
                elif len(e[2]) == 1 and e[1] is mk('elem', e[2][0][0], e[2][0][1]) and not e[3]:
                    out.append(mk('starred', e[2][0][0]))
                else:
                    out.append(mk('star', e[1], e[2], e[3]))
            return out
        if v.k == 'ite' and self.concrete_items(v.a[1]) is not None and self.concrete_items(v.a[2]) is not None:
            a, b = self.concrete_items(v.a[1]), self.concrete_items(v.a[2])
            if len(a) == len(b):
                return [ite(v.a[0], x, y) for x, y in zip(a, b)]
        return [mk('starred', self.freeze(v) if not (v.k == 'obj' and v.a[0] == 'array') else v)]

    def e_List(self, n):
        return self.alloc('list', self.e_Tuple(n).a)

    def e_Set(self, n):
        return self.alloc('set', self.e_Tuple(n).a)

    def e_Dict(self, n):
        d = self.alloc('dict', ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v))
            else:
                kk = self.ev(k)
                self.dict_set(d, kk, self.ev(v))
        return d

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                if x.k == 'enum':
                    x = self.str_of(x)
                if v.format_spec is None and is_const(x) and isinstance(x.a[1], (str, int)) and v.conversion in (-1, 115):
                    parts.append(const(str(x.a[1])))
                else:
                    parts.append(self.freeze(x))
        return self.fstr(parts)

    def fstr(self, parts):
        out = []
        for p in parts:
            if p.k == 'fstr':
                sub = p.a
            else:
                sub = (p,)
            for q in sub:
                if out and is_const(out[-1]) and is_const(q) and isinstance(q.a[1], str) and isinstance(out[-1].a[1], str):
                    out[-1] = const(out[-1].a[1] + q.a[1])
                else:
                    out.append(q)
        out = [o for o in out if not (is_const(o) and o.a[1] == '')] or [const('')]
        if len(out) == 1 and is_const(out[0]):
            return out[0]
        return mk('fstr', *out)

    def e_FormattedValue(self, n):
        return self.ev(n.value)

    def e_Starred(self, n):
        return mk('starred', self.ev(n.value))

    def e_Slice(self, n):
        f = lambda x: self.freeze(self.ev(x)) if x is not None else NONE
        return mk('slice', f(n.lower), f(n.upper), f(n.step))

    def e_Lambda(self, n):
        return self.make_func(n)

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        fr = self.frames[-1]
        if fr.on_yield is not None:
            fr.on_yield(v)
            if self.st is None:
                raise Dead()
        return NONE

    def e_YieldFrom(self, n):
        it = self.ev(n.value)
        fr = self.frames[-1]
        if fr.on_yield is not None:
            self.iterate(it, lambda v: fr.on_yield(v), n)
        return NONE

    def e_Await(self, n):
        return self.ev(n.value)

    def e_IfExp(self, n):
        c = self.fold(self.cond(self.ev(n.test)))
        if c.k == 'const':
            return self.ev(n.body if c.a[1] else n.orelse)
        return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def branch(self, c, fa, fb):
        st0 = self.st
        self.st = st0.fork(c)
        try:
            va = fa()
            a = self.st
        except Dead:
            a, va = None, NONE
        self.st = st0.fork(not_(c))
        try:
            vb = fb()
            b = self.st
        except Dead:
            b, vb = None, NONE
        self.st = self.merge(c, a, b)
        if self.st is None:
            raise Dead()
        if a is None:
            return vb
        if b is None:
            return va
        return ite(c, va, vb)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def rec(i):
            v = self.ev(n.values[i])
            if i == len(n.values) - 1:
                return v
            c = self.fold(self.cond(v))
            if c.k == 'const':
                return rec(i + 1) if c.a[1] == isand else v
            if isand:
                r = self.branch(c, lambda: rec(i + 1), lambda: v)
            else:
                r = self.branch(c, lambda: v, lambda: rec(i + 1))
            # boolean operands: use logical form
            if r.k == 'ite' and r.a[0] is c or (r.k == 'ite' and not_(c) is r.a[0]):
                other = None
                if v is c or v.k in ('cmp', 'not', 'isinst', 'and', 'or'):
                    pos = r.a[1] if r.a[0] is c else r.a[2]
                    neg = r.a[2] if r.a[0] is c else r.a[1]
                    if isand and neg is v and self._is_bool(pos):
                        return and_(c, self.cond(pos))
                    if not isand and pos is v and self._is_bool(neg):
                        return or_(c, self.cond(neg))
                # keep the operand value precise: `x or y`
            return r
        return rec(0)

    def _is_bool(self, t):
        if t.k == 'const':
            return isinstance(t.a[1], bool)
        if t.k == 'call' and t.a[0].k == 'ext' and t.a[0].a[0] in ('numpy.any', 'numpy.all', 'builtins.any', 'builtins.all', 'builtins.isinstance', 'numpy.isnan'):
            return True
        return t.k in ('cmp', 'not', 'isinst', 'and', 'or', 'truth')

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return self.fold(not_(self.cond(v)))
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
        return self.unop(op, v)

    def unop(self, op, v):
        if is_const(v) and isinstance(v.a[1], (int, float)) and not isinstance(v.a[1], bool):
            x = v.a[1]
            return const(-x if op == '-' else +x if op == '+' else ~x) if op != '~' or isinstance(x, int) else mk('un', op, v)
        if op == '~' and v.k == 'un' and v.a[0] == '~':
            return v.a[1]
        if v is NONE:
            self.type_error(f'bad operand type for unary {op}')
        return mk('un', op, self.freeze(v))

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(OPS[type(n.op)], a, b, n)

    def binop(self, op, a, b, node=None):
        a, b = self.prune(a), self.prune(b)
        if (a is NONE or b is NONE and op != '%') and op != '|':
            self.type_error(f'unsupported operand types for {op}', node)
        oka, va = pyval(a)
        okb, vb = pyval(b)
        if oka and okb:
            try:
                if op == '%' and isinstance(va, str):
                    raise ValueError
                r = PYOP[op](va, vb)
                if isinstance(r, tuple):
                    return tup(*[const(x) for x in r]) if not any(isinstance(x, tuple) for x in r) else mk('bin', op, a, b)
                return const(r)
            except TypeError:
                self.type_error(f'unsupported operand types for {op}', node)
            except Exception:
                pass
        if op == '+':
            la, lb = self.seqparts(a), self.seqparts(b)
            if la is not None and lb is not None and la[0] == lb[0]:
                return tup(*la[1], *lb[1]) if la[0] == 'tuple' else self.alloc('list', tuple(la[1]) + tuple(lb[1]))
            ts, tb = self.types_of(a), self.types_of(b)
            if ts == {'str'} or tb == {'str'}:
                return self.fstr([self.freeze(a), self.freeze(b)])
        if op == '*':
            for x, y in ((a, b), (b, a)):
                l = self.seqparts(x)
                oky, n = pyval(y)
                if l is not None and oky and isinstance(n, int) and not isinstance(n, bool) and n * len(l[1]) <= 64:
                    return tup(*(tuple(l[1]) * n)) if l[0] == 'tuple' else self.alloc('list', tuple(l[1]) * n)
        if op == '|' and a.k == 'obj' and a.a[0] == 'dict':
            d = self.alloc('dict', self.h(a).data)
            self.dict_update(d, b)
            return d
        if op == '/' and self.types_of(a) == {'Path'}:
            return mk('call', mk('attr', self.freeze(a), 'joinpath'), (self.freeze(b),), ())
        return mk('bin', op, self.freeze(a), self.freeze(b))

    def seqparts(self, v):
        if v.k == 'tuple':
            return 'tuple', list(v.a)
        if v.k == 'obj' and v.a[0] == 'list':
            return 'list', list(self.h(v).data)
        return None

    def e_Compare(self, n):
        left = self.ev(n.left)
        conds = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            o = CMP[type(op)]
            pl, pr = self.prune(left), self.prune(right)
            if o in ('in', 'notin') and self.scalar(pr) or o in ('<', '<=', '>', '>=') and (pl is NONE or pr is NONE):
                self.type_error(f'{o} not supported', n)
            conds.append(self.compare(o, left, right))
            left = right
        return conds[0] if len(conds) == 1 else and_(*[self.cond(c) for c in conds])

    def compare(self, op, a, b):
        a, b = self.prune(a), self.prune(b)
        if op in ('!=', 'isnot', 'notin'):
            return not_(self.compare({'!=': '==', 'isnot': 'is', 'notin': 'in'}[op], a, b))
        if a.k == 'ite' and (is_const(b) or b.k in ('enum', 'cls')) and op in ('==', 'is') and (self._cmpable(a.a[1]) or self._cmpable(a.a[2])):
            return self.cond_ite(a, lambda v: self.compare(op, v, b))
        if b.k == 'ite' and (is_const(a) or a.k in ('enum', 'cls')) and op in ('==', 'is') and (self._cmpable(b.a[1]) or self._cmpable(b.a[2])):
            return self.cond_ite(b, lambda v: self.compare(op, a, v))
        if op in ('==', 'is') and 'npdtype' in (a.k, b.k):
            from .models import dtname
            x, y = dtname(self, a), dtname(self, b)
            if x and y:
                return const(x == y)
        if op in ('==', 'is'):
            if op == 'is' and (a is NONE or b is NONE):
                x = b if a is NONE else a
                if x is NONE:
                    return TRUE
                if x.k == 'ite':
                    return self.cond_ite(x, lambda v: self.compare('is', v, NONE))
                if x.k in ('const', 'tuple', 'enum', 'cls', 'fn', 'fstr', 'bound', 'ext', 'list', 'dict', 'bin', 'entered', 'exc'):
                    return FALSE
                if x.k == 'obj':
                    if x.a[0] == 'array':
                        return FALSE
                    return FALSE
                if x.k == 'outof' or x.k == 'upd' or x.k == 'call' and x.a[0].k == 'attr' and x.a[0].a[1] in ('reshape', 'astype', 'filled', 'squeeze', 'ravel', 'flatten', 'transpose', 'clip', 'dot', 'view'):
                    return FALSE
                if x.k == 'call' and x.a[0].k == 'ext' and (x.a[0].a[0].startswith(('numpy.', 'builtins.', 'affine')) or '.CRS.from_' in x.a[0].a[0]):
                    return FALSE
                ts = self.types_of(x)
                if ts is not None and 'None' not in ts:
                    return FALSE
                return self.fold(mk('cmp', 'is', x, NONE))
            if a is b and a.k in ('const', 'enum', 'cls', 'obj', 'ext', 'sym', 'tuple'):
                if not (is_const(a) and a.a[0] == 'float' and a.a[1] != a.a[1]):
                    return TRUE
            if a.k == 'enum' and b.k == 'enum':
                return const(a is b)
            if {a.k, b.k} == {'enum', 'const'}:
                e, c = (a, b) if a.k == 'enum' else (b, a)
                if op == '==' and 'builtins.str' in self.mro_names(self.classes[e.a[0]]) and is_const(e.a[2]):
                    return const(e.a[2].a[1] == c.a[1])
                return FALSE
            oka, va = pyval(a)
            okb, vb = pyval(b)
            if oka and okb:
                return const(va == vb) if op == '==' else const(va is vb or (type(va) == type(vb) and va == vb))
            if a.k == 'cls' and b.k == 'cls':
                return const(a is b)
            if a.k == 'obj' and b.k == 'obj' and op == 'is' and a.a[0] != 'array':
                return const(a is b)
            if b.k == 'const' and isinstance(b.a[1], bool) and op == 'is':
                if a.k in ('obj', 'tuple', 'enum') or (is_const(a)):
                    return FALSE
                ts = self.types_of(a)
                if ts and 'bool' not in ts:
                    return FALSE
                return mk('cmp', 'is', a, b)
            fa, fb = self.freeze(a), self.freeze(b)
            if fa.k in ('list',) and fb.k in ('list',) and pyval(tup(*fa.a))[0] and pyval(tup(*fb.a))[0]:
                return const(fa is fb)
            if fa.id > fb.id and not is_const(fb):
                fa, fb = fb, fa
            if is_const(fa) and not is_const(fb):
                fa, fb = fb, fa
            return mk('cmp', '==' if op == '==' else 'is', fa, fb)
        if op == 'in':
            return self.contains_(b, a)
        oka, va = pyval(a)
        okb, vb = pyval(b)
        if oka and okb:
            try:
                return const({'<': va < vb, '<=': va <= vb, '>': va > vb, '>=': va >= vb}[op])
            except TypeError:
                pass
        if op in ('>', '>='):
            return mk('cmp', '<' if op == '>' else '<=', self.freeze(b), self.freeze(a))
        return mk('cmp', op, self.freeze(a), self.freeze(b))

    def _cmpable(self, v):
        return v.k in ('const', 'enum', 'cls', 'obj', 'tuple', 'ite')

    def contains_(self, coll, x):
        coll = self.prune(coll)
        if coll.k == 'ite':
            return self.cond_ite(coll, lambda v: self.contains_(v, x))
        if x.k == 'ite' and (self._cmpable(x.a[1]) or self._cmpable(x.a[2])):
            return self.cond_ite(x, lambda v: self.contains_(coll, v))
        if coll.k == 'const' and isinstance(coll.a[1], str) and is_const(x) and isinstance(x.a[1], str):
            return const(x.a[1] in coll.a[1])
        items = None
        if coll.k == 'obj' and coll.a[0] in ('list', 'set'):
            items = self.h(coll).data
        elif coll.k in ('tuple', 'list', 'set'):
            items = coll.a
        elif coll.k == 'obj' and coll.a[0] == 'dict' or coll.k == 'dict':
            data = self.h(coll).data if coll.k == 'obj' else coll.a
            xs = self.freeze(x)
            conds, unk = [], False
            for e in data:
                if isinstance(e, tuple):
                    eq = self.keyeq(e[0], xs)
                    if eq is TRUE:
                        v = e[1]
                        if v.k == 'ite' and ABSENT in v.a[1:]:
                            return v.a[0] if v.a[2] is ABSENT else not_(v.a[0])
                        return TRUE
                    if eq is not FALSE:
                        unk = True
                else:
                    unk = True
            if not unk:
                return FALSE
            return mk('cmp', 'in', xs, self.freeze(coll))
        elif coll.k == 'members':
            items = tuple(m for m in self.enum_members(coll.a[0]))
            items = tuple(const(m.a[1]) for m in items)
        elif coll.k == 'view':
            return self.contains_(coll.a[1], x) if coll.a[0] == 'keys' else mk('cmp', 'in', self.freeze(x), self.freeze(coll))
        if items is not None and not any(i.k in ('star', 'starred') for i in items):
            cs = [self.compare('==', x, i) for i in items]
            r = or_(*cs) if cs else FALSE
            if r.k == 'const':
                return r
            if r.k == 'or' and len(r.a) > 1:
                return mk('cmp', 'in', self.freeze(x), mk('list', *[self.freeze(i) for i in items]))
            return r
        return mk('cmp', 'in', self.freeze(x), self.freeze(coll))

    def keyeq(self, a, b):
        if a is b:
            return TRUE
        if a.k in ('const', 'enum', 'tuple', 'cls') and b.k in ('const', 'enum', 'tuple', 'cls'):
            r = self.compare('==', a, b)
            return r if r.k == 'const' else r
        if a.k == 'ext' and b.k == 'ext':
            return FALSE
        return mk('cmp', '==', a, b)

    # comprehensions ---------------------------------------------------------
    def comp(self, gens, leaf):
        fr = self.frames[-1]
        nf = Frame(self.new_uid(), fr.fv, fr.mod, fr.qual, len(self.cleanups))
        nf.globals_, nf.nonlocals = fr.globals_, set()
        nf.returns = fr.returns
        nf.on_yield = fr.on_yield
        # comprehension scope: names resolve to the comprehension, then the enclosing frame
        cf = _CompFV(fr.fv, fr)
        nf.fv = cf
        nf.clsinfo = None
        self.st.envs[nf.fid] = {}
        self.frames.append(nf)

        def rec(i):
            if i == len(gens):
                leaf()
                return
            g = gens[i]
            it = self.ev(g.iter)

            def body(v):
                self.assign(g.target, v, g.target)
                cs = []
                for f in g.ifs:
                    c = self.fold(self.cond(self.ev(f)))
                    if c is FALSE:
                        return
                    cs.append(c)
                c = and_(*cs) if cs else TRUE
                if c.k == 'const':
                    rec(i + 1)
                    return
                st0 = self.st
                self.st = st0.fork(c)
                try:
                    rec(i + 1)
                except Dead:
                    self.st = None
                self.st = self.merge(c, self.st, st0.fork(not_(c)))
            self.iterate(it, body, g.iter)
            if self.st is None:
                raise Dead()
        try:
            rec(0)
        finally:
            self.frames.pop()
            if self.st is not None and not nf.has_closure:
                self.st.envs.pop(nf.fid, None)

    def e_ListComp(self, n):
        lst = self.alloc('list', ())

        def leaf():
            v = self.ev(n.elt)
            self.seth(lst, self.h(lst).data + (v,))
        self.comp(n.generators, leaf)
        return lst

    def e_SetComp(self, n):
        v = self.e_ListComp(n)
        return self.alloc('set', self.h(v).data)

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_DictComp(self, n):
        d = self.alloc('dict', ())

        def leaf():
            k = self.ev(n.key)
            self.dict_set(d, k, self.ev(n.value))
        self.comp(n.generators, leaf)
        return d

    # attributes ---------------------------------------------------------------
    def e_Attribute(self, n):
        return self.getattr_(self.ev(n.value), n.attr, n)

    def class_lookup(self, ci, name):
        for c in self.mro(ci):
            if name in c.ns:
                return c.ns[name]
        return None

    def getattr_(self, b, name, node=None):
        b = self.prune(b)
        k = b.k
        if k == 'sym' and (b.a[0], name) in self.attr_values:
            return self.attr_values[b.a[0], name]
        if k == 'ite':
            a1, a2 = b.a[1], b.a[2]
            if a1 is NONE or a1 is UNDEF:
                return self.getattr_(a2, name, node)
            if a2 is NONE or a2 is UNDEF:
                return self.getattr_(a1, name, node)
            return self.branch(b.a[0], lambda: self.getattr_(a1, name, node), lambda: self.getattr_(a2, name, node))
        if self.shape_hook is not None and name == 'shape' and (k != 'obj' or b.a[0] == 'array'):
            s = self.shape_hook(self.freeze(b))
            if s is not None:
                return tup(*[const(x) for x in s])
        if b is NONE and not name.startswith('__'):
            self.raise_('builtins.AttributeError', const(f'None has no attribute {name}'), node)
        if is_const(b) and isinstance(b.a[1], (int, float, complex, str, bytes)) and not hasattr(b.a[1], name):
            self.raise_('builtins.AttributeError', const(f'no attribute {name}'), node)
        if k == 'mod':
            m = b.a[0]
            if f'{m}.{name}' in self.mods:
                self.load(f'{m}.{name}')
                return mk('mod', f'{m}.{name}')
            env = self.st.envs.get(self.load(m).fid, {})
            return env.get(name, mk('unbound', f'{m}.{name}'))
        if k == 'ext':
            return self.extn(b.a[0] + '.' + name)
        if k == 'obj':
            h = self.h(b)
            if h.kind == 'inst':
                p = self.class_lookup(h.meta, name)
                if p is not None and p.k == 'property':
                    return self.call(mk('bound', p.a[0], b), [], {}, node)
                if name in h.data and h.data[name] is not UNDEF:
                    return self.prune(h.data[name])
                if name == '__class__':
                    return mk('cls', h.meta.qual)
                if p is not None:
                    return self.bind(p, b, h.meta)
                return mk('attr', b, name)
            if h.kind == 'res':
                if name in h.data:
                    return self.prune(h.data[name])
                if self.out_dtype and name == 'dtypes' and h.meta[0] == 'rasterio.open' and h.meta[1].k == 'call' and any(is_const(x) and x.a[1] == 'w' for x in h.meta[1].a[1]):
                    return tup(const(self.out_dtype))
                if name == 'closed' and '~open' in h.data:
                    from .lib import poss, guard_atoms
                    o, env = h.data['~open'], dict(guard_atoms(self.st.guards))
                    if next(iter(poss(o, False, env)), None) is None:
                        return FALSE
                    if next(iter(poss(o, True, env)), None) is None:
                        return TRUE
                    return self.prune(not_(o))
                return mk('attr', b, name)
            if h.kind == 'array':
                if name in ARRAY_ATTR:
                    return self.attr_term(h.data, name)
                return mk('bm', b, name)
            return mk('bm', b, name)
        if k == 'call' and name in ('name', 'stem', 'suffix') and b.a[0].k == 'ext' and b.a[0].a[0] == 'pathlib.Path' and len(b.a[1]) == 1 and \
                is_const(b.a[1][0]) and isinstance(b.a[1][0].a[1], str):
            return const(getattr(Path(b.a[1][0].a[1]), name))
        if k == 'cls':
            ci = self.classes[b.a[0]]
            if name == '__members__' and any('enum.' in n for n in self.mro_names(ci)):
                return mk('members', b.a[0])
            if name == '__name__':
                return const(ci.name)
            p = self.class_lookup(ci, name)
            if p is not None:
                if p.k == 'static':
                    return p.a[0]
                if p.k == 'classm':
                    return mk('bound', p.a[0], b)
                return p
            return mk('attr', b, name)
        if k == 'enum':
            ci = self.classes[b.a[0]]
            if name in ('_value_', '_name_'):
                return b.a[2] if name == '_value_' else const(b.a[1])
            p = self.class_lookup(ci, name)
            if p is not None and p.k == 'property':
                return self.call(mk('bound', p.a[0], b), [], {}, node)
            if name == 'value':
                return b.a[2]
            if name == 'name':
                return const(b.a[1])
            if p is not None:
                return self.bind(p, b, ci)
            if is_const(b.a[2]) and isinstance(b.a[2].a[1], str):
                return mk('bm', b.a[2], name)
            return mk('attr', b, name)
        if k == 'super':
            cls, o = b.a
            ci = self.h(o).meta if o.k == 'obj' else self.classes[o.a[0]]
            mro = self.mro(ci)
            cur = [c.qual for c in mro]
            i = cur.index(cls) + 1 if cls in cur else 1
            for c in mro[i:]:
                if name in c.ns:
                    p = c.ns[name]
                    if p.k == 'property':
                        return self.call(mk('bound', p.a[0], o), [], {}, node)
                    return self.bind(p, o, ci)
            if name == '__init__':
                return self.extn('builtins.object.__init__')
            return mk('attr', b, name)
        if k == 'fn' and name in ('__name__', '__doc__'):
            return const(b.a[0].rsplit('.', 1)[-1])
        if k == 'enumconv':
            p = self.class_lookup(self.classes[b.a[0]], name)
            if p is not None and p.k == 'fn':
                return mk('bound', p, b)
            if name in ('value', '_value_', 'name', '_name_'):
                if p is not None and p.k == 'property':
                    return self.call(mk('bound', p.a[0], b), [], {}, node)
                return mk('attr', b, name)
        if k in ('const', 'tuple', 'list', 'dict', 'view', 'fstr', 'set'):
            return mk('bm', b, name)
        return self.attr_term(b, name)

    def read_dtype(self, t):
        """Data type that reading a resampling view gives, if set by its 'dtype' argument."""
        from .models import dtname
        t = self.prune(t)
        if t.k == 'ite':
            a, b = self.read_dtype(t.a[1]), self.read_dtype(t.a[2])
            return a if a == b else None
        while t.k == 'entered':
            t = t.a[0]
        if t.k == 'obj' and t.a[1] in self.st.heap:
            m = self.h(t).meta
            if isinstance(m, tuple) and m and m[0] == 'rasterio.vrt.WarpedVRT' and m[1].k == 'call':
                for k, v in m[1].a[2]:
                    if k == 'dtype':
                        ds = {dtname(self, x) for x in self.ite_leaves(v)}
                        return ds.pop() if len(ds) == 1 else None
        return None

    def ite_leaves(self, t):
        if t.k == 'ite':
            return self.ite_leaves(t.a[1]) + self.ite_leaves(t.a[2])
        return [t]

    def dtype_of(self, t, depth=0):
        """Data type name of an array term, if known."""
        if depth > 30 or not isinstance(t, T):
            return None
        from .models import dtname
        r = lambda x: self.dtype_of(x, depth + 1)
        if t.k == 'sym':
            return self.dtypes.get(t.a[0])
        if t.k == 'obj' and t.a[0] == 'array':
            return r(self.h(t).data)
        if t.k == 'outof':
            return r(t.a[1])
        if t.k in ('upd', 'copyof', 'sub') or (t.k == 'attr' and t.a[1] == 'T'):
            return r(t.a[0])
        if t.k in ('lv', 'after'):
            return r(t.a[2])
        if t.k == 'ite':
            a, b = r(t.a[1]), r(t.a[2])
            return a if a == b else None
        if t.k == 'call':
            f, kw = t.a[0], dict(t.a[2])
            if f.k == 'ext' and f.a[0].startswith('numpy.'):
                n = f.a[0][6:]
                d = kw.get('dtype') or (t.a[1][{'full': 2}.get(n, 1)] if n in ('full', 'zeros', 'ones', 'empty', 'array', 'asarray') and len(t.a[1]) > {'full': 2}.get(n, 1) else None)
                if d is not None:
                    return dtname(self, d)
                if n in ('round', 'around', 'rint', 'clip', 'ascontiguousarray', 'reshape', 'squeeze', 'transpose', 'copy', 'empty_like', 'zeros_like', 'full_like', 'ones_like', 'round_') and t.a[1]:
                    return r(t.a[1][0])
            if f.k == 'attr':
                if f.a[1] == 'astype' and (t.a[1] or 'dtype' in kw):
                    return dtname(self, t.a[1][0] if t.a[1] else kw['dtype'])
                if f.a[1] in ('round', 'clip', 'copy', 'reshape', 'squeeze', 'transpose', 'ravel'):
                    return r(f.a[0])
                if f.a[1] == 'read':
                    if 'out_dtype' in kw:
                        return dtname(self, kw['out_dtype'])
                    return self.read_dtype(f.a[0]) or self.dtypes.get('~read')
        return None

    def attr_term(self, b, name):
        if name == 'dtype' and self.dtypes:
            d = self.dtype_of(b)
            if d:
                return mk('npdtype', d)
        if name == 'T':
            if b.k == 'attr' and b.a[1] == 'T':
                return b.a[0]
        return mk('attr', b, name)

    def bind(self, p, o, ci):
        if p.k == 'fn':
            return mk('bound', p, o)
        if p.k == 'static':
            return p.a[0]
        if p.k == 'classm':
            return mk('bound', p.a[0], mk('cls', ci.qual))
        return p

    # subscripts -----------------------------------------------------------------
    def e_Subscript(self, n):
        b = self.ev(n.value)
        k = self.ev(n.slice)
        return self.getitem(b, k, n)

    def getitem(self, b, k, node=None):
        b, k = self.prune(b), self.prune(k)
        if b.k == 'ite':
            if b.a[1] is NONE:
                return self.getitem(b.a[2], k, node)
            if b.a[2] is NONE:
                return self.getitem(b.a[1], k, node)
            return self.branch(b.a[0], lambda: self.getitem(b.a[1], k, node), lambda: self.getitem(b.a[2], k, node))
        if b is NONE:
            self.raise_('builtins.TypeError', const('None is not subscriptable'), node)
        if self.scalar(b):
            self.type_error('not subscriptable', node)
        if k.k == 'ite' and (b.k == 'obj' and b.a[0] == 'dict' or b.k == 'cls') and (is_const(k.a[1]) or is_const(k.a[2]) or k.a[1].k == 'enum'):
            return self.branch(k.a[0], lambda: self.getitem(b, k.a[1], node), lambda: self.getitem(b, k.a[2], node))
        if b.k == 'cls':
            ci = self.classes[b.a[0]]
            if any('enum.' in n for n in self.mro_names(ci)):
                return self.enum_getitem(b.a[0], k, node)
            return b
        if b.k == 'ext':
            ok, v = pyval(k)
            if ok and isinstance(v, str) and not b.a[0].startswith('builtins.'):
                return self.extn(f'{b.a[0]}.{v}')
            return mk('sub', b, self.freeze(k))
        if b.k == 'enumconv' or b.k == 'enum':
            return mk('sub', b, self.freeze(k))
        ok, kv = pyval(k)
        if b.k in ('tuple', 'list') or (b.k == 'obj' and b.a[0] == 'list'):
            data = b.a if b.k != 'obj' else self.h(b).data
            pre = [x.k in ('star', 'starred') for x in data]
            if ok and isinstance(kv, int) and not isinstance(kv, bool):
                if kv >= 0 and kv < len(data) and not any(pre[:kv + 1]):
                    return self.prune(data[kv])
                if kv < 0 and -kv <= len(data) and not any(pre[kv:]):
                    return self.prune(data[kv])
                if not any(pre):
                    self.maybe('builtins.IndexError', node=node)
                if kv == 0 and pre and data[0].k == 'star' and len(data[0].a[1]) == 1 and not data[0].a[2]:
                    return mk('first', data[0].a[0])
            if k.k == 'index':
                for x in data:
                    if x.k == 'star' and x.a[1] and x.a[1][-1][1] == k.a[0]:
                        return self.prune(x.a[0])
            if k.k == 'slice' and not any(pre):
                ok3, s = pyval(tup(*k.a))
                if ok3:
                    part = data[slice(*s)]
                    return tup(*part) if b.k == 'tuple' else self.alloc('list', tuple(part))
            return mk('sub', self.freeze(b), self.freeze(k))
        if b.k == 'obj' and b.a[0] == 'dict' or b.k == 'dict':
            data = self.h(b).data if b.k == 'obj' else b.a
            if k.k == 'npdtype' and all(isinstance(e, tuple) and is_const(e[0]) for e in data):
                self.raise_('builtins.KeyError', self.freeze(k), node)     # equal to a string, with another hash
            r = self.dict_lookup(data, k)
            if r is not None:
                if r.k == 'ite' and ABSENT in r.a[1:]:
                    absent = r.a[0] if r.a[1] is ABSENT else not_(r.a[0])
                    if self.fold(absent) is not FALSE:
                        self.maybe('builtins.KeyError', node=node)
                    r = r.a[2] if r.a[1] is ABSENT else r.a[1]
                if r is not ABSENT:
                    return self.prune(r)
            if all(isinstance(e, tuple) for e in data) and r is ABSENT:
                self.raise_('builtins.KeyError', self.freeze(k), node)
            self.maybe('builtins.KeyError', node=node)
            self.emit('lookup', 'dict', node, target=b, key=self.freeze(k))
            return mk('sub', self.freeze(b), self.freeze(k))
        if b.k == 'const' and isinstance(b.a[1], str):
            if ok and isinstance(kv, int) and -len(b.a[1]) <= kv < len(b.a[1]):
                return const(b.a[1][kv])
            if k.k == 'slice':
                ok3, s = pyval(tup(*k.a))
                if ok3:
                    return const(b.a[1][slice(*s)])
        if b.k == 'members':
            return self.enum_getitem(b.a[0], k, node)
        if b.k == 'obj' and b.a[0] == 'inst':
            m = self.class_lookup(self.h(b).meta, '__getitem__')
            if m is not None:
                return self.call(self.getattr_(b, '__getitem__'), [k], {}, node)
        if b.k == 'obj' and b.a[0] == 'res':
            kk = '[]' + repr(k)
            if kk in self.h(b).data:
                return self.h(b).data[kk]
        if k.k == 'index':
            fb = self.freeze(b)
            for l in self.loops:
                if l[1] == k.a[0] and l[0] is fb:
                    return mk('elem', fb, l[1])
        self.emit('getitem', '', node, target=b, key=self.freeze(k))
        return self.sub_term(self.freeze(b), self.freeze(k))

    def sub_term(self, b, k):
        ok, kv = pyval(k)
        # unpacking of a call result that is itself a tuple display of the same call
        if b.k == 'upd' and b.a[1] is k:
            return b.a[2]
        return mk('sub', b, k)

    def dict_lookup(self, data, k):
        k = self.freeze(k)
        unk = False
        for e in data:
            if isinstance(e, tuple):
                eq = self.keyeq(e[0], k)
                if eq is TRUE:
                    return e[1]
                if eq is not FALSE:
                    unk = True
            elif e.k == 'dstar' and e.a[0] is k:
                return e.a[1]
            else:
                unk = True
        return None if unk else ABSENT

    def enum_getitem(self, qual, k, node):
        """Enum[name]"""
        if k.k == 'enum' and 'builtins.str' in self.mro_names(self.classes[k.a[0]]):
            k = k.a[2]
        ok, v = pyval(k)
        if ok:
            for m in self.enum_members(qual):
                if m.a[1] == v:
                    return m
            self.raise_('builtins.KeyError', k, node)
        if k.k == 'enumconv' and k.a[0] == qual:
            self.maybe('builtins.KeyError', node=node)
            return k
        self.emit('enumconv', qual, node, value=k, by='name')
        self.maybe('builtins.KeyError', node=node)
        return mk('enumconv', qual, self.freeze(k))

    def enum_conv(self, qual, v, node):
        """Enum(value)"""
        v = self.prune(v)
        if v.k == 'ite':
            return self.branch(v.a[0], lambda: self.enum_conv(qual, v.a[1], node), lambda: self.enum_conv(qual, v.a[2], node))
        if v.k == 'enum' and v.a[0] == qual:
            return v
        if v.k == 'enumconv' and v.a[0] == qual:
            return v
        if v.k in ('const', 'enum'):
            for m in self.enum_members(qual):
                if self.compare('==', m.a[2], v if v.k == 'const' else v.a[2]) is TRUE:
                    return m
            self.raise_('builtins.ValueError', v, node)
        self.emit('enumconv', qual, node, value=v)
        self.maybe('builtins.ValueError', node=node)
        return mk('enumconv', qual, self.freeze(v))

    # calls ------------------------------------------------------------------------
    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fr = next((f for f in reversed(self.frames) if f.fv is not None and getattr(f.fv, 'cls', None) is not None), None)
            if fr is None:
                return mk('opaque', 'super', self.new_uid())
            real = fr.fv
            while isinstance(real, _CompFV):
                real = real.fv
            self_name = real.params()[0]
            env = None
            for f in reversed(self.frames):
                if self_name in self.st.envs.get(f.fid, {}):
                    env = self.st.envs[f.fid][self_name]
                    break
            return mk('super', real.cls.qual, env)
        f = self.ev(n.func)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.spread(self.ev(a.value))
            else:
                args.append(self.ev(a))
        spreads = []
        for kw in n.keywords:
            if kw.arg is None:
                d = self.prune(self.ev(kw.value))
                self.kw_spread(d, kwargs, spreads)
            else:
                kwargs[kw.arg] = self.ev(kw.value)
        if spreads:
            kwargs['**'] = tup(*spreads)
        return self.call(f, args, kwargs, n)

    def kw_spread(self, d, kwargs, spreads):
        if d.k == 'ite':
            # e.g. **(kw or {})
            empties = [x for x in d.a[1:] if x.k == 'obj' and x.a[0] == 'dict' and not self.h(x).data]
            if len(empties) == 1:
                other = d.a[1] if d.a[2] is empties[0] else d.a[2]
                if other is NONE:
                    return
                tmp, sp = {}, []
                self.kw_spread(other, tmp, sp)
                kwargs.update(tmp)
                spreads += sp
                return
            tmp1, sp1, tmp2, sp2 = {}, [], {}, []
            self.kw_spread(d.a[1], tmp1, sp1)
            self.kw_spread(d.a[2], tmp2, sp2)
            for k in list(tmp1) + [x for x in tmp2 if x not in tmp1]:
                a, b = tmp1.get(k, ABSENT), tmp2.get(k, ABSENT)
                kwargs[k] = absent_ite(d.a[0], a, b)
            spreads += [ite(d.a[0], x, y) for x, y in zip(sp1, sp2)] if len(sp1) == len(sp2) else sp1 + sp2
            return
        if d.k == 'obj' and d.a[0] == 'dict' or d.k == 'dict':
            data = self.h(d).data if d.k == 'obj' else d.a
            for e in data:
                if isinstance(e, tuple) and is_const(e[0]) and isinstance(e[0].a[1], str):
                    kwargs[e[0].a[1]] = self.prune(e[1])
                elif isinstance(e, tuple):
                    spreads.append(mk('dict', tuple(self.freeze(x) for x in e)))
                elif e.k == 'spread':
                    spreads.append(e.a[0])
                else:
                    spreads.append(self.freeze(e))
            return
        if d is NONE:
            return
        spreads.append(self.freeze(d))

    def call(self, f, args, kwargs, node):
        f = self.prune(f)
        k = f.k
        if k == 'ite':
            return self.branch(f.a[0], lambda: self.call(f.a[1], args, kwargs, node), lambda: self.call(f.a[2], args, kwargs, node))
        if is_const(f) or f is NONE:
            self.type_error('not callable', node)
        if k == 'fn':
            return self.call_fn(self.funcs[f.a[1]], args, kwargs, node)
        if k == 'bound':
            return self.call(f.a[0], [f.a[1]] + args, kwargs, node) if f.a[0].k != 'fn' else \
                self.call_fn(self.funcs[f.a[0].a[1]], [f.a[1]] + args, kwargs, node)
        if k == 'static':
            return self.call(f.a[0], args, kwargs, node)
        if k == 'partial':
            fn, pa, pk = f.a
            kw = dict(pk)
            kw.update(kwargs)
            return self.call(fn, list(pa) + args, kw, node)
        if k == 'cls':
            return self.instantiate(f.a[0], args, kwargs, node)
        if k == 'ext':
            return self.call_ext(f, f.a[0], args, kwargs, node)
        if k == 'bm':
            from . import models
            return models.builtin_method(self, f.a[0], f.a[1], args, kwargs, node)
        if k == 'obj' and f.a[0] == 'inst':
            m = self.class_lookup(self.h(f).meta, '__call__')
            if m is not None:
                return self.call(self.getattr_(f, '__call__'), args, kwargs, node)
        if k == 'attr':
            return self.call_method(f, args, kwargs, node)
        return self.opaque_call(f, args, kwargs, node)

    def instantiate(self, qual, args, kwargs, node):
        ci = self.classes[qual]
        names = self.mro_names(ci)
        if any('enum.' in n for n in names):
            return self.enum_conv(qual, args[0] if args else NONE, node)
        if any(n in ('builtins.Exception', 'builtins.RuntimeWarning', 'builtins.Warning', 'builtins.ValueError', 'builtins.BaseException')
               for n in names) or any('builtins.Exception' in self.exc_mro(n) for n in names if n.startswith('builtins.') and n.endswith('Error')):
            o = self.alloc('inst', {'args': tup(*[self.freeze(a) for a in args])}, ci)
            return o
        o = self.alloc('inst', {}, ci)
        self.emit('new', qual, node, obj=o, args=args, kwargs=kwargs)
        init = self.class_lookup(ci, '__init__')
        if init is not None and init.k == 'fn':
            self.call_fn(self.funcs[init.a[1]], [o] + args, kwargs, node)
        elif any('namedtuple' in n or 'NamedTuple' in n for n in names) or ci.node is not None and any(
                'dataclass' in ast.unparse(d) for d in ci.node.decorator_list):
            fields = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign)]
            d = {}
            for fn_, v in zip(fields, args):
                d[fn_] = v
            d.update(kwargs)
            for fn_ in fields:
                if fn_ not in d and fn_ in ci.ns:
                    d[fn_] = ci.ns[fn_]
            self.seth(o, d)
            pi = self.class_lookup(ci, '__post_init__')
            if pi is not None:
                self.call(self.getattr_(o, '__post_init__'), [], {}, node)
        return o

    def bind_args(self, fv, args, kwargs, node):
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kwargs = dict(kwargs)
        spreads = kwargs.pop('**', None)
        args = list(args)
        i = 0
        while args and i < len(pos):
            x = args[0]
            if x.k in ('starred', 'star'):
                # unknown sequence: distribute over the remaining parameters that keywords do not give
                rest = [p for p in pos[i:] if p not in kwargs]
                after = len(args) - 1
                nodef = len(pos) - len(fv.defaults)
                take = [p for j, p in enumerate(pos[i:], i) if p not in kwargs and j < nodef]
                take = take[:len(take) - after] if after else take
                src = x.a[0]
                if not take and not after and rest and a.vararg is None:
                    take = rest[:1]
                for j, p in enumerate(take):
                    env[p] = self.getitem(src, const(j), node)
                i += len(take)
                args.pop(0)
                if a.vararg is None or after:
                    continue
                break
            env[pos[i]] = args.pop(0)
            i += 1
        if a.vararg is not None:
            env[a.vararg.arg] = tup(*args)
        elif args and not all(x.k in ('starred', 'star') for x in args):
            self.raise_('builtins.TypeError', const(f'too many positional arguments for {fv.qual}'), node)
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = [x.arg for x in a.posonlyargs]
        extra = {}
        for n, v in kwargs.items():
            if n in pos and n not in posonly or n in kwonly:
                if n in env:
                    self.raise_('builtins.TypeError', const(f'multiple values for {n} in {fv.qual}'), node)
                env[n] = v
            elif a.kwarg is not None:
                extra[n] = v
            else:
                if v.k == 'ite' and ABSENT in v.a[1:]:
                    self.maybe('builtins.TypeError', node=node)
                else:
                    self.raise_('builtins.TypeError', const(f'unexpected keyword argument {n} for {fv.qual}'), node)
        nodef = len(pos) - len(fv.defaults)
        for j, p in enumerate(pos):
            dflt = fv.defaults[j - nodef] if j >= nodef else None
            if p not in env:
                if spreads is not None:
                    src = spreads.a[0] if len(spreads.a) == 1 else mk('kwmerge', *spreads.a)
                    env[p] = mk('kwget', src, p, dflt if dflt is not None else ABSENT)
                elif dflt is not None:
                    env[p] = dflt
                else:
                    self.raise_('builtins.TypeError', const(f'missing argument {p} of {fv.qual}'), node)
            elif env[p].k == 'ite' and ABSENT in env[p].a[1:]:
                v = env[p]
                env[p] = ite(v.a[0], dflt if v.a[1] is ABSENT and dflt is not None else v.a[1],
                             dflt if v.a[2] is ABSENT and dflt is not None else v.a[2])
        for p in kwonly:
            if p not in env:
                if p in fv.kw_defaults:
                    env[p] = fv.kw_defaults[p] if spreads is None else mk('kwget', spreads, p, fv.kw_defaults[p])
                else:
                    env[p] = mk('kwget', spreads, p, ABSENT) if spreads is not None else mk('unbound', p)
        if a.kwarg is not None:
            data = tuple((const(n), v) for n, v in extra.items())
            if spreads is not None:
                data += tuple(mk('spread', s) for s in spreads.a)
            env[a.kwarg.arg] = self.alloc('dict', data)
        return env

    def call_fn(self, fv, args, kwargs, node):
        if fv.qual in self.intercept:
            r = self.intercept[fv.qual](self, fv, args, kwargs, node)
            if r is not NotImplemented:
                return r
        active = sum(1 for f in self.frames if f.fv is fv)
        env = self.bind_args(fv, args, kwargs, node)
        self.inlined.add(fv.qual)
        if active >= self.max_rec or len(self.frames) > 80:
            for c in self.raise_classes(fv):
                self.maybe(c, node=node)
            return mk('call', mk('fn', fv.qual, fv.uid), tuple(self.freeze(v) for v in env.values()), ())
        if isinstance(fv.node, ast.Lambda):
            fr = self.push(fv, env)
            try:
                v = self.ev(fv.node.body)
            finally:
                self.frames.pop()
            return v
        if fv.is_gen:
            g = self.alloc('gen', (), (fv, env))
            if not fv.is_cm:
                return g
            return g
        self.emit('inline', fv.qual, node, env=env, call=node)
        v = self.inline(fv, env)
        self.emit('leave', fv.qual, node, value=v, env=env)
        return v

    def raise_classes(self, fv):
        if fv.raises is None:
            out = set()
            for n in ast.walk(fv.node):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    if isinstance(e, ast.Name):
                        if hasattr(_bi, e.id):
                            out.add('builtins.' + e.id)
                        else:
                            env = self.st.envs.get(fv.mod.fid, {})
                            t = env.get(e.id)
                            out.add(t.a[0] if t is not None and t.k in ('cls', 'ext') else '?')
            fv.raises = sorted(out)
        return fv.raises

    def push(self, fv, env):
        fr = Frame(self.new_uid(), fv, fv.mod, fv.qual, len(self.cleanups))
        self.st.envs[fr.fid] = env
        self.frames.append(fr)
        return fr

    def inline(self, fv, env, on_yield=None):
        if fv.name in self.fn_values and on_yield is None:
            # what the (public) function returns is given by the analysed scenario
            return self.fn_values[fv.name](self, fv, env)
        entry = self.st.guards
        fr = self.push(fv, env)
        fr.on_yield = on_yield
        depth = len(self.frames)
        lc, self.loopctx = self.loopctx, []
        node = self.node
        self.exec_block(fv.node.body)
        self.node = node
        self.loopctx = lc
        del self.frames[depth - 1:]
        rets = fr.returns
        if self.st is not None:
            rets = rets + [(self.st, NONE)]
        if not rets:
            self.st = None
            raise Dead()
        st, v = rets[-1]
        for s, x in reversed(rets[:-1]):
            g = [c for c in s.guards if c not in entry]
            c = and_(*g) if g else mk('ret', self.new_uid())
            st = self.merge(c, s, st)
            v = ite(c, x, v)
        if not fr.has_closure:
            st.envs.pop(fr.fid, None)
        self.st = st
        return self.prune(v)

    def run_gen(self, g, on_yield):
        h = self.h(g)
        fv, env = h.meta
        self.inlined.add(fv.qual)
        self.emit('inline', fv.qual, self.node, env=env, call=None)
        self.inline(fv, dict(env), on_yield)

    def gen_list(self, g):
        """List summary of everything a generator yields."""
        if self.h(g).kind != 'gen':
            return g
        lst = self.alloc('list', ())

        def on_yield(v):
            self.seth(lst, self.h(lst).data + (v,))
        self.run_gen(g, on_yield)
        return lst

    # external calls ----------------------------------------------------------------
    def call_ext(self, f, name, args, kwargs, node):
        from . import models
        if name in self.ext_values:
            # what the file, or other source, contains is given by the analysed scenario
            self.emit('call', name, node, args=args, kwargs=kwargs)
            v = self.ext_values[name]
            return v(self, args, kwargs, node) if callable(v) else v
        if name == 'rasterio.windows.Window.from_slices':
            # the same as the constructor, where the limits are given
            lim = []
            for x in (args + [kwargs.get(k) for k in ('rows', 'cols')[len(args):]])[:2]:
                x = self.freeze(x) if x is not None else NONE
                ends = x.a[:2] if x.k == 'slice' or x.k in ('tuple', 'list') and len(x.a) == 2 and not any(y.k in ('star', 'starred') for y in x.a) else (NONE, NONE)
                lim.append((const(0) if ends[0] is NONE and x.k == 'slice' else ends[0], ends[1]))
            if len(lim) == 2 and len(args) + len(kwargs) == 2 and not any(y is NONE for x in lim for y in x):
                (r0, r1), (c0, c1) = lim
                f = ext('rasterio.windows.Window')
                return self.call_ext(f, 'rasterio.windows.Window', [c0, r0, self.binop('-', c1, c0), self.binop('-', r1, r0)], {}, node)
        r = models.call_ext(self, f, name, args, kwargs, node)
        return r

    def call_method(self, f, args, kwargs, node):
        from . import models
        return models.call_method(self, f, args, kwargs, node)

    def opaque_call(self, f, args, kwargs, node, name=None):
        self.emit('call', name or show(f), node, fn=f, args=list(args), kwargs=dict(kwargs))
        return self.call_term(f, args, kwargs)

    def call_term(self, f, args, kwargs):
        kw = tuple(sorted(((n, self.freeze(v)) for n, v in kwargs.items()), key=lambda x: x[0]))
        return mk('call', self.freeze(f) if f.k != 'obj' else f, tuple(self.freeze(a) for a in args), kw)

    def list_extend(self, lst, v):
        self.seth(lst, self.h(lst).data + tuple(self.spread(v)))

    def dict_update(self, d, v):
        v = self.prune(v)
        if v.k == 'obj' and v.a[0] == 'dict' or v.k == 'dict':
            data = self.h(v).data if v.k == 'obj' else v.a
            for e in data:
                if isinstance(e, tuple):
                    if e[1].k == 'ite' and ABSENT in e[1].a[1:]:
                        old = self.dict_lookup(self.h(d).data, e[0])
                        old = old if old is not None else ABSENT
                        x = e[1]
                        self.dict_set(d, e[0], absent_ite(x.a[0], old if x.a[1] is ABSENT else x.a[1], old if x.a[2] is ABSENT else x.a[2]))
                    else:
                        self.dict_set(d, e[0], e[1])
                else:
                    self.seth(d, self.h(d).data + (e,))
        elif v is NONE:
            pass
        elif v.k == 'ite':
            st0 = self.st
            c = v.a[0]
            self.st = st0.fork(c)
            self.dict_update(d, v.a[1])
            a = self.st
            self.st = st0.fork(not_(c))
            self.dict_update(d, v.a[2])
            self.st = self.merge(c, a, self.st)
        else:
            self.seth(d, self.h(d).data + (mk('spread', self.freeze(v)),))

    def str_of(self, v):
        if v.k == 'enum':
            ci = self.classes[v.a[0]]
            p = self.class_lookup(ci, '__str__')
            if p is not None and p.k == 'fn':
                return self.call_fn(self.funcs[p.a[1]], [v], {}, self.node)
            return const(f'{ci.name}.{v.a[1]}')
        if is_const(v):
            return const(str(v.a[1]))
        return None

    # ------------------------------------------------------------------ entry points
    def run(self, f, args=(), kwargs=None, thread='main'):
        """Analyse one call from the outside. Returns (value or None if it never returns, escaping raises, events)."""
        self.revive()
        self.st_last = self.st.fork()
        self.sinks = [[]]
        n0 = len(self.events)
        host = Frame(self.new_uid(), None, self.mods[PKG] if PKG in self.mods else next(iter(self.mods.values())), '<caller>', 0)
        self.st.envs[host.fid] = {}
        self.frames = [host]
        self.cleanups, self.loops, self.loopctx, self.thread = [], (), [], thread
        self.iters = ()
        self.node = None
        try:
            v = self.call(f, list(args), dict(kwargs or {}), None)
        except Dead:
            v = None
        esc = self.sinks[0]
        self.sinks = [[]]
        self.frames = []
        return v, esc, self.events[n0:]


class _CompFV:
    """Pseudo function value of a comprehension scope."""

    def __init__(self, fv, frame):
        self.fv = fv
        self.cls = getattr(fv, 'cls', None)
        self.qual = frame.qual
        self.mod = frame.mod
        self.closure = (tuple(fv.closure) if fv is not None else tuple(getattr(frame, 'closure', ()))) + (frame.fid,)
        self.decos = []


def _guarded(e, c):
    if isinstance(e, T) and e.k == 'star':
        return mk('star', e.a[0], e.a[1], e.a[2] + (c,))
    if isinstance(e, T) and e.k == 'dstar':
        return mk('dstar', e.a[0], e.a[1], e.a[2], e.a[3] + (c,))
    if isinstance(e, T) and e.k == 'spread':
        return e
    return mk('star', e, (), (c,))


def _starred_by(e, loops, guards):
    if isinstance(e, T) and e.k == 'star':
        return mk('star', e.a[0], loops + e.a[1], guards + e.a[2])
    return mk('star', e, loops, guards)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
PYOP = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
        '//': lambda a, b: a // b, '%': lambda a, b: a % b, '**': lambda a, b: a ** b, '&': lambda a, b: a & b,
        '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b,
        '@': lambda a, b: None}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
ARRAY_ATTR = {'shape', 'dtype', 'T', 'ndim', 'size', 'flat', 'itemsize', 'nbytes', 'real', 'imag', 'mask', 'data'}
