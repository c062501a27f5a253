"""Models of Python builtins and of the external libraries used by orthority (type-level facts only)."""
from __future__ import annotations
import ast
from .terms import *
from .terms import T
from .engine import RESOURCES, FRESH_ALLOC, Dead, PASS_ITER, MAXUNROLL

# exceptions that documented failures of an external call raise (besides '?', any other Exception)
RAISES = {
    'rasterio.open': ('rasterio.errors.RasterioIOError',),
    'rasterio.crs.CRS.from_string': ('rasterio.errors.CRSError',),
    'rasterio.crs.CRS.from_epsg': (),
    'json.load': ('json.JSONDecodeError', 'builtins.UnicodeDecodeError'), 'json.loads': ('json.JSONDecodeError',),
    'yaml.safe_load': ('yaml.YAMLError', 'builtins.UnicodeDecodeError'),
    'fsspec.open': ('builtins.ValueError', 'builtins.OSError'),
    'fsspec.open_files': ('builtins.ValueError', 'builtins.OSError'),
    'builtins.open': ('builtins.FileNotFoundError', 'builtins.OSError'),
    'xml.etree.ElementTree.fromstring': ('xml.etree.ElementTree.ParseError',),
}
METHOD_RAISES = {'intersection': ('rasterio.errors.WindowError',), 'sniff': ('csv.Error',), 'has_header': ('csv.Error',)}
PURE_NOFAIL = {'pathlib.Path', 'os.fspath', 'logging.getLogger', 'os.cpu_count', 'warnings.simplefilter', 'os.environ.update'}

# method names of arrays / library objects that change their receiver
INPLACE_METHODS = {'fill', 'sort', 'resize', 'partition', 'put', 'itemset', 'setflags', 'append', 'extend', 'insert',
                   'remove', 'clear', 'update', 'pop', 'popitem', 'setdefault', 'reverse', 'add', 'discard', 'byteswap'}
# external functions that write to an argument: name -> (positional index, keyword)
OUT_ARGS = {'cv2.remap': (4, 'dst'), 'cv2.fillPoly': (0, 'img'), 'cv2.dilate': (2, 'dst'), 'cv2.rectangle': (0, 'img'),
            'cv2.polylines': (0, 'img'), 'cv2.fillConvexPoly': (0, 'img'), 'cv2.erode': (2, 'dst'), 'cv2.warpAffine': (3, 'dst'),
            'numpy.copyto': (0, 'dst'), 'numpy.put': (0, 'a'), 'numpy.place': (0, 'arr'), 'numpy.putmask': (0, 'a'),
            'numpy.fill_diagonal': (0, 'a'), 'numpy.random.shuffle': (0, 'x'), 'rasterio.warp.reproject': (1, 'destination'),
            'cv2.drawContours': (0, 'image')}
STRM = {'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'startswith', 'endswith', 'replace', 'split', 'rfind', 'find',
        'title', 'capitalize', 'splitlines', 'count', 'isdigit', 'partition', 'rpartition', 'rsplit', 'removeprefix', 'removesuffix', 'casefold'}


def builtin_method(E, o, name, args, kwargs, node):
    # str ------------------------------------------------------------------
    if o.k == 'const' and isinstance(o.a[1], str):
        oks = [pyval(a) for a in args]
        if name in STRM and all(x[0] for x in oks) and not kwargs:
            r = getattr(o.a[1], name)(*[x[1] for x in oks])
            return _py(E, r)
        if name == 'join' and args:
            items = E.concrete_items(args[0]) if args else None
            if items is not None and all(is_const(i) for i in items):
                return const(o.a[1].join(str(i.a[1]) for i in items))
        if name == 'format':
            if all(x[0] for x in oks) and not kwargs:
                try:
                    return const(o.a[1].format(*[x[1] for x in oks]))
                except Exception:
                    pass
            return mk('fstr', o, *[E.freeze(a) for a in args])
        E.emit('call', 'str.' + name, node, fn=mk('attr', o, name), args=list(args), kwargs=dict(kwargs), recv=o)
        return E.call_term(mk('attr', o, name), args, kwargs)
    if o.k == 'fstr':
        return E.call_term(mk('attr', o, name), args, kwargs)
    if o.k == 'tuple':
        if name == 'index' or name == 'count':
            return E.call_term(mk('attr', o, name), args, kwargs)
        return E.call_term(mk('attr', E.freeze(o), name), args, kwargs)
    if o.k == 'obj':
        kind = E.h(o).kind
        if kind == 'list':
            return list_method(E, o, name, args, kwargs, node)
        if kind == 'dict':
            return dict_method(E, o, name, args, kwargs, node)
        if kind == 'set':
            return set_method(E, o, name, args, kwargs, node)
        if kind == 'array':
            return array_method(E, o, name, args, kwargs, node)
        if kind == 'stack':
            return stack_method(E, o, name, args, kwargs, node)
        if kind == 'future':
            return future_method(E, o, name, args, kwargs, node)
    if o.k == 'dict' and name in ('get', 'items', 'keys', 'values', 'copy'):
        tmp = E.alloc('dict', o.a)
        return dict_method(E, tmp, name, args, kwargs, node)
    if o.k == 'list' and name == 'copy':
        return E.alloc('list', o.a)
    if o.k == 'view':
        return E.call_term(mk('attr', E.freeze(o), name), args, kwargs)
    return E.opaque_call(mk('attr', E.freeze(o), name), args, kwargs, node)


def _py(E, r):
    if isinstance(r, (list,)):
        return E.alloc('list', tuple(const(x) for x in r))
    if isinstance(r, tuple):
        return tup(*[const(x) for x in r])
    return const(r)


def list_method(E, o, name, args, kwargs, node):
    h = E.h(o)
    if name == 'append':
        E.emit('mut', 'append', node, target=o, key=None, value=args[0])
        E.seth(o, h.data + (args[0],))
        return NONE
    if name == 'extend':
        E.emit('mut', 'extend', node, target=o, key=None, value=args[0])
        E.list_extend(o, args[0])
        return NONE
    if name == 'insert':
        E.emit('mut', 'insert', node, target=o, key=args[0], value=args[1])
        ok, i = pyval(args[0])
        if ok:
            d = list(h.data)
            d.insert(i, args[1])
            E.seth(o, tuple(d))
        else:
            E.seth(o, h.data + (args[1],))
        return NONE
    if name == 'pop':
        E.emit('mut', 'pop', node, target=o, key=None, value=None)
        ok, i = pyval(args[0]) if args else (True, -1)
        if ok and h.data and not any(x.k in ('star', 'starred') for x in h.data) and -len(h.data) <= i < len(h.data):
            d = list(h.data)
            v = d.pop(i)
            E.seth(o, tuple(d))
            return v
        r = mk('popped', E.freeze(o), E.new_uid())
        return r
    if name == 'copy':
        return E.alloc('list', h.data)
    if name in ('sort', 'reverse', 'clear', 'remove'):
        E.emit('mut', name, node, target=o, key=None, value=None)
        if name == 'clear':
            E.seth(o, ())
        elif name == 'reverse' and not any(x.k in ('star', 'starred') for x in h.data):
            E.seth(o, tuple(reversed(h.data)))
        return NONE
    return E.call_term(mk('attr', E.freeze(o), name), args, kwargs)


def dict_method(E, o, name, args, kwargs, node):
    h = E.h(o)
    if name in ('items', 'keys', 'values'):
        return mk('view', name, o)
    if name == 'copy':
        return E.alloc('dict', h.data)
    if name == 'get':
        k = E.prune(args[0])
        d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
        if k.k == 'ite':
            return E.branch(k.a[0], lambda: dict_method(E, o, name, [k.a[1], d], {}, node), lambda: dict_method(E, o, name, [k.a[2], d], {}, node))
        r = E.dict_lookup(h.data, k)
        if r is ABSENT:
            return d
        if r is not None:
            if r.k == 'ite' and ABSENT in r.a[1:]:
                return ite(r.a[0], d if r.a[1] is ABSENT else r.a[1], d if r.a[2] is ABSENT else r.a[2])
            return E.prune(r)
        return mk('dget', E.freeze(o), E.freeze(k), E.freeze(d))
    if name == 'update':
        E.emit('mut', 'update', node, target=o, key=None, value=args[0] if args else None, kwargs=dict(kwargs))
        for a in args:
            E.dict_update(o, a)
        sp = kwargs.pop('**', None) if '**' in kwargs else None
        for k, v in kwargs.items():
            if v.k == 'ite' and ABSENT in v.a[1:]:
                old = E.dict_lookup(E.h(o).data, const(k))
                old = old if old is not None else ABSENT
                v = ite(v.a[0], old if v.a[1] is ABSENT else v.a[1], old if v.a[2] is ABSENT else v.a[2])
            E.dict_set(o, const(k), v)
        if sp is not None:
            for s in sp.a:
                if s.k == 'dict':
                    E.dict_update(o, s)
                elif s.k in ('dstar', 'spread'):
                    E.seth(o, E.h(o).data + (s,))
                else:
                    E.seth(o, E.h(o).data + (mk('spread', s),))
        return NONE
    if name in ('pop', 'setdefault'):
        E.emit('mut', name, node, target=o, key=E.freeze(args[0]), value=args[1] if len(args) > 1 else None)
        r = E.dict_lookup(h.data, args[0])
        if name == 'pop':
            E.seth(o, tuple(e for e in h.data if not (isinstance(e, tuple) and e[0] is E.freeze(args[0]))))
            if r is None or (r is ABSENT and len(args) < 2):
                if len(args) < 2:
                    E.maybe('builtins.KeyError', node=node)
                return mk('dget', E.freeze(mk('dict', *h.data)), E.freeze(args[0]), E.freeze(args[1]) if len(args) > 1 else ABSENT)
            if r is ABSENT:
                return args[1]
            if r.k == 'ite' and ABSENT in r.a[1:]:
                d = args[1] if len(args) > 1 else UNDEF
                return ite(r.a[0], d if r.a[1] is ABSENT else r.a[1], d if r.a[2] is ABSENT else r.a[2])
            return r
        if r is None or r is ABSENT:
            E.dict_set(o, args[0], args[1] if len(args) > 1 else NONE)
            return args[1] if len(args) > 1 else NONE
        return r
    if name in ('clear', 'popitem'):
        E.emit('mut', name, node, target=o, key=None, value=None)
        if name == 'clear':
            E.seth(o, ())
        return NONE
    return E.call_term(mk('attr', E.freeze(o), name), args, kwargs)


def set_method(E, o, name, args, kwargs, node):
    h = E.h(o)
    if name in ('add', 'update', 'discard', 'remove', 'clear', 'difference_update', 'intersection_update'):
        E.emit('mut', name, node, target=o, key=None, value=args[0] if args else None)
        if name == 'add':
            E.seth(o, h.data + (args[0],))
        return NONE
    if name in ('issubset', 'difference', 'issuperset', 'intersection') and args:
        items = E.concrete_items(mk('tuple', *h.data))
        oth = None
        a = args[0]
        if a.k == 'obj' and a.a[0] in ('list', 'set'):
            oth = E.concrete_items(mk('tuple', *E.h(a).data))
        elif a.k in ('tuple', 'list'):
            oth = E.concrete_items(a)
        if items is not None and oth is not None and all(pyval(x)[0] for x in items + oth):
            A, B = {pyval(x)[1] for x in items}, {pyval(x)[1] for x in oth}
            if name == 'issubset':
                return const(A <= B)
            if name == 'issuperset':
                return const(A >= B)
            return E.alloc('set', tuple(x for x in items if (pyval(x)[1] in B) == (name == 'intersection')))
    return E.call_term(mk('attr', E.freeze(o), name), args, kwargs)


def array_method(E, o, name, args, kwargs, node):
    content = E.h(o).data
    if name in ('copy', '__copy__', '__deepcopy__'):
        return E.alloc('array', mk('call', mk('attr', content, 'copy'), (), ()))
    if name in INPLACE_METHODS:
        E.emit('mut', name, node, target=o, key=None, value=args[0] if args else None)
        if name == 'fill' and len(args) == 1:
            E.seth(o, mk('upd', content, mk('slice', NONE, NONE, NONE), E.freeze(args[0])))
            return NONE
        E.seth(o, mk('upd', content, const(name), tup(*[E.freeze(a) for a in args])))
        return NONE
    E.emit('call', '.' + name, node, fn=mk('attr', content, name), args=list(args), kwargs=dict(kwargs), recv=o)
    out_arg(E, '.' + name, args, kwargs, node)
    E.maybe('?', node=node)
    if name == 'astype':
        c = kwargs.get('copy')
        if c is None or c is TRUE:
            return E.alloc('array', E.call_term(mk('attr', content, name), args, kwargs))
    return E.call_term(mk('attr', content, name), args, kwargs)


CLOSABLE = {'rasterio.open', 'rasterio.vrt.WarpedVRT', 'builtins.open', 'rasterio.io.MemoryFile', 'io.open'}


def stack_method(E, o, name, args, kwargs, node):
    if name == 'enter_context':
        v = E.cm_enter(args[0], node)
        E.seth(o, E.h(o).data + (('cm', args[0]),))
        E.emit('enter_context', 'contextlib.ExitStack', node, stack=o, cm=args[0], value=v)
        return v
    if name == 'push':
        E.seth(o, E.h(o).data + (('cm', args[0]),))
        return args[0]
    if name == 'callback':
        E.seth(o, E.h(o).data + (('cb', args[0], tuple(args[1:]), tuple(kwargs.items())),))
        return args[0]
    if name in ('close', '__exit__'):
        E.stack_exit(o, node, bool(name == '__exit__' and args and args[0] is not NONE))
        E.emit('exit', 'contextlib.ExitStack', node, cm=o, exceptional=bool(E.exctag))
        return FALSE
    if name == '__enter__':
        return o
    if name == 'pop_all':
        n = E.alloc('stack', E.h(o).data, ('contextlib.ExitStack', None))
        E.seth(o, ())
        E.emit('pop_all', 'contextlib.ExitStack', node, old=o, new=n)
        return n
    return E.opaque_call(mk('attr', o, name), args, kwargs, node)


def future_method(E, o, name, args, kwargs, node):
    h = E.h(o)
    if name in ('result', 'exception'):
        E.emit('result', name, node, future=o)
        if name == 'result':
            for r in h.data['raises']:
                E.maybe(r.cls, node=node, via=r)
            if not any(r.cls == '?' for r in h.data['raises']):
                E.maybe('?', node=node)
            return h.data['value']
        return mk('excof', o)
    if name == 'add_done_callback':
        E.emit('submit', 'callback', node, future=o, fn=args[0], executor=None)
        old = E.thread
        E.thread = f'worker'
        lk, E.st.locks = E.st.locks, ()
        try:
            E.call(args[0], [o], {}, node)
        except Dead:
            pass
        E.thread = old
        if E.st is not None:
            E.st.locks = lk
        return NONE
    return E.call_term(mk('attr', o, name), args, kwargs)


def submit(E, ex, fn, args, kwargs, node):
    """Task submission: the task runs in a worker thread; its failures surface at result()."""
    e = E.emit('submit', 'executor', node, executor=ex, fn=fn, args=list(args), kwargs=dict(kwargs), uid0=E.uid)
    old = E.thread
    E.thread = 'worker'
    st0 = E.st.fork()
    lk = E.st.locks
    E.st.locks = ()
    E.sinks.append([])
    cl, E.cleanups = E.cleanups, []
    lp, E.loopctx = E.loopctx, []
    from .engine import HObj, UNWRITTEN
    ghosts = [E.st.heap[g] for g in (-1, -2)]
    for g in (-1, -2):
        E.st.heap[g] = HObj('array', UNWRITTEN)
    try:
        v = E.call(fn, args, kwargs, node)
    except Dead:
        v = NONE
        E.st = None
    rs = E.sinks.pop()
    E.cleanups, E.loopctx = cl, lp
    if e is not None:
        e.data['writes'] = tuple(E.st.heap[g].data if E.st is not None else None for g in (-1, -2))
        e.data['value'] = v
        e.data['end'] = len(E.events)
    if E.st is None:
        E.st = st0
    for g, h in zip((-1, -2), ghosts):
        E.st.heap[g] = h
    g = st0.guards
    E.st.guards = g
    E.st.locks = lk
    E.thread = old
    uniq, seen = [], set()
    if e is not None:
        from .lib import open_res
        e.data['leaks'] = [(i, h, r, r.st.guards) for r in rs if r.st is not None for i, h in open_res(r.st) if i > e.data['uid0']]
    for r in rs:
        key = (r.cls, str(r.loc))
        if key not in seen:
            seen.add(key)
            uniq.append(r)
    for r in uniq:
        r.st = None
    f = E.alloc('future', {'value': v, 'raises': uniq})
    if e is not None:
        e.data['future'] = f
    return f


def call_method(E, f, args, kwargs, node):
    """Call of a method of an external / unknown object."""
    recv, name = f.a
    if recv.k == 'obj' and recv.a[0] == 'res':
        rn = E.h(recv).meta[0]
        if 'PoolExecutor' in rn:
            if name == 'submit':
                return submit(E, recv, args[0], list(args[1:]), dict(kwargs), node)
            if name == 'map':
                ents = E.entries(args[1] if len(args) == 2 else mk('zip', *args[1:]), node)
                lst = E.alloc('list', ())

                def body(v):
                    a = [v] if len(args) == 2 else list(E.unpack(v, len(args) - 1))
                    fu = submit(E, recv, args[0], a, {}, node)
                    r = future_method(E, fu, 'result', [], {}, node)
                    E.seth(lst, E.h(lst).data + (r,))
                E.run_entries(ents, body, node)
                E.emit('execmap', 'map', node, result=lst)
                return lst
            if name == 'shutdown':
                E.emit('call', 'executor.shutdown', node, fn=f, args=list(args), kwargs=dict(kwargs), recv=recv)
                return NONE
        if rn == 'threading.Lock':
            if name == 'acquire':
                E.emit('acquire', rn, node, cm=recv)
                E.st.locks = E.st.locks + (recv,)
                return TRUE
            if name == 'release':
                E.emit('release', rn, node, cm=recv)
                E.st.locks = tuple(x for x in E.st.locks if x is not recv)
                return NONE
        if name == '__enter__':
            return E.cm_enter(recv, node)
        if name == '__exit__':
            E.cm_exit(recv, node, bool(args and args[0] is not NONE))
            return FALSE
        if name == 'close':
            E.emit('exit', rn, node, cm=recv, exceptional=bool(E.exctag), explicit=True)
            E.close_res(recv)
            return NONE
        if rn == 'io.StringIO' and name == 'read':
            pass
    if recv.k == 'obj' and recv.a[0] == 'future':
        return future_method(E, recv, name, args, kwargs, node)
    if recv.k == 'obj' and recv.a[0] == 'stack':
        return stack_method(E, recv, name, args, kwargs, node)
    if name in ('keys', 'items', 'values') and not args and recv.k not in ('obj',):
        return mk('view', name, recv)
    if name == 'get' and recv.k not in ('obj',) and 1 <= len(args) <= 2 and not kwargs:
        E.emit('getitem', 'get', node, target=recv, key=E.freeze(args[0]))
        k = E.freeze(args[0])
        return mk('dget', recv, k, E.freeze(args[1]) if len(args) > 1 else NONE)
    ev = E.emit('call', '.' + name, node, fn=f, args=list(args), kwargs=dict(kwargs), recv=recv)
    if name in ('write', 'write_mask') and args:
        g = -1 if name == 'write' else -2
        E.st.heap[g] = E.st.heap[g].with_(mk('wrote', E.freeze(recv), tuple(E.freeze(a) for a in args), tuple(sorted((k, E.freeze(v)) for k, v in kwargs.items()))))
    inplace = name in INPLACE_METHODS and recv.k != 'ext'
    if inplace:
        E.emit('mut', name, node, target=recv, key=E.freeze(args[0]) if args else None, value=args[0] if args else None)
    out_arg(E, '.' + name, args, kwargs, node)
    rs = METHOD_RAISES.get(name, ())
    if name == 'open' and recv.k == 'attr' and recv.a[1] == 'fs':
        rs = ('builtins.FileNotFoundError', 'builtins.OSError')
    if recv.k == 'obj' and recv.a[0] == 'res' and E.h(recv).meta[0] == 'fsspec.file' and name == 'read':
        rs = ('builtins.UnicodeDecodeError',)
    ts = E.types_of(recv)
    if not (recv.k == 'obj' and recv.a[0] == 'res' and E.h(recv).meta[0] in ('logging.getLogger', 'tqdm.auto.tqdm')):
        E.maybe(*rs, '?', node=node)
    res = E.call_term(f, args, kwargs)
    if name == 'open' and recv.k != 'ext':
        # a file opened through a file system, an OpenFile, a path or a memory file
        E.nopen += 1
        o = args[0] if args and recv.k == 'attr' and recv.a[1] == 'fs' else recv
        types = ('DatasetReader', 'DatasetReaderBase', 'DatasetWriter') if recv.k == 'obj' else ('IOBase',)
        res = E.alloc('res', {'__types__': types, '~open': TRUE}, ('fsspec.file' if recv.k != 'obj' else 'rasterio.open', o))
    if ev is not None:
        ev.data['result'] = res
    if inplace and name in ('pop', 'popitem', 'setdefault'):
        if name == 'pop':
            d = args[1] if len(args) > 1 else ABSENT
            res = mk('dget', E.freeze(recv), E.freeze(args[0]), E.freeze(d)) if args else res
            if len(args) == 1:
                E.maybe('builtins.KeyError', node=node)
        if recv.k not in ('obj',):
            E.replace_value(recv, mk('popd', recv, E.freeze(args[0])) if args else mk('upd', recv, const(name), NONE))
    elif inplace and name == 'fill' and len(args) == 1 and recv.k not in ('obj',):
        E.replace_value(recv, mk('upd', recv, mk('slice', NONE, NONE, NONE), E.freeze(args[0])))
    elif inplace and recv.k not in ('obj',):
        E.replace_value(recv, mk('upd', recv, const(name), E.freeze(tup(*args)) if not kwargs else tup(*[E.freeze(a) for a in args], *[E.freeze(v) for v in kwargs.values()])))
    if name == 'copy' and not args and recv.k != 'obj':
        ts = E.types_of(recv)
        if ts == {'dict'} or (ev and False):
            return E.alloc('dict', (mk('spread', E.freeze(recv)),))
        return E.alloc('array', res) if ts == {'ndarray'} else mk('copyof', E.freeze(recv))
    return res


def out_arg(E, name, args, kwargs, node):
    targets = []
    if 'out' in kwargs:
        targets.append(kwargs['out'])
    if name in OUT_ARGS:
        i, kw = OUT_ARGS[name]
        if kw in kwargs:
            targets.append(kwargs[kw])
        elif i < len(args) and not any(a.k in ('starred', 'star') for a in args[:i + 1]):
            targets.append(args[i])
    for t in targets:
        t = E.prune(t)
        if t is NONE:
            continue
        E.emit('mut', 'out:' + name, node, target=t, key=None, value=None)
        new = mk('call', ext(name) if not name.startswith('.') else ext('method' + name),
                 tuple(E.freeze(a) for a in args), tuple(sorted((k, E.freeze(v)) for k, v in kwargs.items())))
        if t.k == 'obj' and t.a[0] == 'array':
            E.seth(t, mk('outof', new, E.h(t).data))
        else:
            root = t
            while root.k in ('sub', 'attr'):
                root = root.a[0]
            ob = E.find_array_by_content(root)
            if ob is not None:
                path = []
                r = t
                while r.k in ('sub', 'attr') and r is not root:
                    path.append(r.a[1] if isinstance(r.a[1], T) else const(r.a[1]))
                    r = r.a[0]
                E.seth(ob, mk('upd', E.h(ob).data, tup(*reversed(path)), new))
            else:
                E.replace_value(t, mk('outof', new, E.freeze(t)))


TYPES = {'builtins.' + n for n in ('str', 'int', 'float', 'bool', 'dict', 'list', 'tuple', 'set', 'type', 'bytes', 'object', 'complex', 'frozenset')}


def call_ext(E, f, name, args, kwargs, node):
    fz = E.freeze
    short = name[9:] if name.startswith('builtins.') else None
    if short:
        r = call_builtin(E, short, args, kwargs, node)
        if r is not None:
            return r
        from .engine import _bi
        cls = getattr(_bi, short, None)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return E.call_term(f, args, kwargs)
    if name == 'contextlib.ExitStack':
        return E.alloc('stack', (), ('contextlib.ExitStack', None))
    if name == 'functools.partial':
        return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
    if name == 'itertools.product' and not kwargs:
        return mk('product', *args)
    if name in ('copy.deepcopy', 'copy.copy'):
        v = args[0]
        if v.k == 'obj' and v.a[0] in ('list', 'dict', 'array', 'set'):
            return deepcopy(E, v, name == 'copy.copy')
        if v.k in ('const', 'tuple', 'enum'):
            return v
        return mk('copyof' if name == 'copy.copy' else 'deepcopyof', fz(v))
    if name in ('concurrent.futures.as_completed',):
        E.emit('call', name, node, fn=f, args=list(args), kwargs=dict(kwargs))
        return args[0]
    if name == 'concurrent.futures.wait':
        E.emit('call', name, node, fn=f, args=list(args), kwargs=dict(kwargs))
        return mk('opaque', 'wait', E.new_uid())
    if name == 'os.fspath':
        if is_const(args[0]):
            return args[0]
    if name in ('os.path.join',):
        name, f = 'posixpath.join', ext('posixpath.join')
    if name.startswith('numpy.'):
        r = numpy_fold(E, name, args, kwargs, node)
        if r is not None:
            return r
    if name == 'typing.cast':
        return args[1]
    ev = E.emit('call', name, node, fn=f, args=list(args), kwargs=dict(kwargs))
    out_arg(E, name, args, kwargs, node)
    if name.startswith('concurrent.futures.') and name.endswith('Executor'):
        o = E.alloc('res', {}, (name, E.call_term(f, args, kwargs)))
        return o
    if name not in PURE_NOFAIL and not name.startswith(('logging.', 'click.', 'threading.', 'affine.', 'warnings.')):
        E.maybe(*RAISES.get(name, ()), '?', node=node)
    if name in RESOURCES:
        data = {}
        if args and args[0].k not in ('starred',):
            data['__arg0__'] = args[0]
        if name in ('rasterio.open', 'rasterio.vrt.WarpedVRT'):
            data['__types__'] = ('DatasetReader', 'DatasetReaderBase', 'DatasetWriter')
        if name in ('builtins.open', 'io.StringIO'):
            data['__types__'] = ('IOBase',)
        if name in CLOSABLE:
            data['~open'] = TRUE
            E.nopen += 1
        if name == 'tqdm.auto.tqdm' and args and args[0].k != 'const':
            o = E.alloc('res', data, (name, E.call_term(f, args, kwargs)))
            return o
        o = E.alloc('res', data, (name, E.call_term(f, args, kwargs)))
        if ev is not None:
            ev.data['result'] = o
        return o
    res = E.call_term(f, args, kwargs)
    if name in FRESH_ALLOC:
        res = E.alloc('array', res)
    if ev is not None:
        ev.data['result'] = res
    # a callable handed to an external function may be called by it
    return res


def deepcopy(E, v, shallow=False):
    if v.k != 'obj':
        if v.k == 'tuple':
            return tup(*[deepcopy(E, x) for x in v.a])
        return v
    h = E.h(v)
    if h.kind in ('list', 'set'):
        return E.alloc(h.kind, h.data if shallow else tuple(deepcopy(E, x) for x in h.data))
    if h.kind == 'dict':
        return E.alloc('dict', h.data if shallow else tuple((e[0], deepcopy(E, e[1])) if isinstance(e, tuple) else e for e in h.data))
    if h.kind == 'array':
        return E.alloc('array', h.data)
    return v


NPDT = {'uint8': ('i', 0, 255), 'uint16': ('i', 0, 65535), 'int16': ('i', -32768, 32767), 'int32': ('i', -2**31, 2**31 - 1),
        'uint32': ('i', 0, 2**32 - 1), 'int64': ('i', -2**63, 2**63 - 1), 'uint64': ('i', 0, 2**64 - 1), 'int8': ('i', -128, 127),
        'float32': ('f', -3.4028235e38, 3.4028235e38), 'float64': ('f', -1.7976931348623157e308, 1.7976931348623157e308),
        'float16': ('f', -65504.0, 65504.0)}
MANT = {'float16': 11, 'float32': 24, 'float64': 53}


def dtname(E, t):
    t = E.prune(t)
    if is_const(t) and isinstance(t.a[1], str) and t.a[1] in NPDT:
        return t.a[1]
    if t.k == 'ext' and t.a[0].startswith('numpy.') and t.a[0][6:] in NPDT:
        return t.a[0][6:]
    if t.k == 'npdtype':
        return t.a[0]
    return None


def can_cast(a, b):
    ka, kb = NPDT[a][0], NPDT[b][0]
    if ka == 'i' and kb == 'i':
        return NPDT[b][1] <= NPDT[a][1] and NPDT[a][2] <= NPDT[b][2]
    if ka == 'f' and kb == 'f':
        return MANT[a] <= MANT[b]
    if ka == 'i' and kb == 'f':
        bits = {'int8': 8, 'uint8': 8, 'int16': 16, 'uint16': 16, 'int32': 32, 'uint32': 32, 'int64': 64, 'uint64': 64}[a]
        return {'float16': 8, 'float32': 16, 'float64': 64}[b] >= bits
    return False


def promote(a, b):
    for c in ('uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'uint64', 'int64', 'float16', 'float32', 'float64'):
        if can_cast(a, c) and can_cast(b, c):
            return c
    return 'float64'


def numpy_fold(E, name, args, kwargs, node):
    """Type-level numpy functions on known data types."""
    n = name[6:]
    if n == 'dtype' and args:
        d = dtname(E, args[0])
        if d:
            return mk('npdtype', d)
    if n == 'can_cast' and len(args) >= 2:
        a, b = dtname(E, args[0]), dtname(E, args[1])
        if a and b:
            c = kwargs.get('casting', args[2] if len(args) > 2 else const('safe'))
            if c is const('safe'):
                return const(can_cast(a, b))
    if n == 'issubdtype' and len(args) == 2:
        a = dtname(E, args[0])
        if a and args[1].k == 'ext':
            k = NPDT[a][0]
            t = args[1].a[0]
            if t in ('numpy.floating', 'numpy.inexact'):
                return const(k == 'f')
            if t == 'numpy.integer':
                return const(k == 'i')
            if t == 'numpy.signedinteger':
                return const(k == 'i' and NPDT[a][1] < 0)
            if t == 'numpy.unsignedinteger':
                return const(k == 'i' and NPDT[a][1] == 0)
            if t == 'numpy.number':
                return TRUE
    if n in ('iinfo', 'finfo') and args:
        a = dtname(E, args[0])
        if a and (NPDT[a][0] == 'i') == (n == 'iinfo'):
            cv = (lambda v: const(int(v))) if n == 'iinfo' else (lambda v: const(float(v)))
            return _info(E, a, cv)
        if a:
            E.raise_('builtins.ValueError', const(f'{n}({a})'), node)
    if n in ('promote_types', 'result_type') and len(args) == 2:
        a, b = dtname(E, args[0]), dtname(E, args[1])
        if a and b:
            return mk('npdtype', promote(a, b))
    if n == 'isscalar' and args:
        ts = E.types_of(E.prune(args[0]))
        if ts is not None:
            sc = {t in ('int', 'float', 'str', 'bool', 'enumstr') for t in ts}
            if len(sc) == 1:
                return const(sc.pop())
    if n == 'isnan' and args:
        v = E.prune(args[0])
        if is_const(v) and isinstance(v.a[1], (int, float)):
            return const(v.a[1] != v.a[1])
        if v is NONE:
            E.emit('badarg', 'numpy.isnan', node, value=v)
            E.raise_('builtins.TypeError', const('isnan(None)'), node)
        if v.k == 'ite' and (is_const(v.a[1]) or is_const(v.a[2])):
            return E.branch(v.a[0], lambda: E.call(ext('numpy.isnan'), [v.a[1]], kwargs, node), lambda: E.call(ext('numpy.isnan'), [v.a[2]], kwargs, node))
    if n in ('float32', 'float64') and args and is_const(args[0]) and isinstance(args[0].a[1], (int, float)):
        return const(float(args[0].a[1]))
    return None


def _info(E, a, cv):
    o = E.alloc('res', {'min': cv(NPDT[a][1]), 'max': cv(NPDT[a][2]), 'dtype': mk('npdtype', a)}, ('numpy.info', None))
    return o


def call_builtin(E, n, args, kwargs, node):
    fz = E.freeze
    a0 = E.prune(args[0]) if args else None
    if a0 is not None and E.scalar(a0) and n in ('len', 'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'sum', 'any', 'all', 'enumerate', 'zip', 'next'):
        E.type_error(f'{n}: not iterable', node)
    if a0 is NONE and n in ('abs', 'round', 'int', 'float', 'range'):
        E.type_error(f'{n}(None)', node)
    if n in ('int', 'float') and len(args) == 1 and is_const(a0) and isinstance(a0.a[1], str):
        try:
            (int if n == 'int' else float)(a0.a[1])
        except ValueError:
            E.raise_('builtins.ValueError', const(f'{n} of a text'), node)
    if a0 is not None and n in ('max', 'min') and len(args) > 1 and any(E.prune(x) is NONE for x in args):
        E.type_error(f'{n} of None', node)
    if n == 'len':
        if a0.k == 'obj' and a0.a[0] in ('list', 'dict', 'set'):
            d = E.h(a0).data
            if all(not (isinstance(e, T) and e.k in ('star', 'dstar', 'spread', 'starred')) for e in d) and not (
                    a0.a[0] == 'dict' and any(isinstance(e, tuple) and e[1].k == 'ite' and ABSENT in e[1].a for e in d)):
                return const(len(d))
        if a0.k in ('tuple', 'list') and not any(x.k in ('star', 'starred') for x in a0.a):
            return const(len(a0.a))
        if is_const(a0) and isinstance(a0.a[1], str):
            return const(len(a0.a[1]))
        if a0.k == 'ite' and a0.a[1].k in ('tuple', 'obj') and a0.a[2].k in ('tuple', 'obj'):
            return E.branch(a0.a[0], lambda: call_builtin(E, 'len', [a0.a[1]], {}, node), lambda: call_builtin(E, 'len', [a0.a[2]], {}, node))
        if E.shape_hook is not None:
            s = E.shape_hook(fz(a0))
            if s:
                return const(s[0])
        return mk('call', ext('builtins.len'), (fz(a0),), ())
    if n == 'isinstance':
        return E.isinst(a0, E.prune(args[1]))
    if n == 'type':
        if len(args) == 1:
            if a0.k == 'obj' and a0.a[0] == 'inst':
                return mk('cls', E.h(a0).meta.qual)
            if a0.k == 'enum':
                return mk('cls', a0.a[0])
            return mk('call', ext('builtins.type'), (fz(a0),), ())
        return mk('opaque', 'type', E.new_uid())
    if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
        if not args:
            return tup() if n == 'tuple' else E.alloc('set' if 'set' in n else 'list', ())
        if a0.k == 'ite':
            return E.branch(a0.a[0], lambda: call_builtin(E, n, [a0.a[1]] + list(args[1:]), kwargs, node), lambda: call_builtin(E, n, [a0.a[2]] + list(args[1:]), kwargs, node))
        items = E.spread(a0)
        if n == 'iter':
            if len(items) == 1 and items[0].k == 'starred':
                return mk('iterof', fz(a0))
            return E.alloc('list', tuple(items)) if not (a0.k == 'obj' and a0.a[0] == 'list') else a0
        if n == 'reversed' and not any(x.k in ('star', 'starred') for x in items):
            items = items[::-1]
        elif n == 'reversed':
            return mk('call', ext('builtins.reversed'), (fz(a0),), ())
        if n == 'sorted':
            oks = [pyval(x) for x in items]
            if all(o[0] for o in oks) and not kwargs:
                try:
                    items = [const(x) for x in sorted(o[1] for o in oks)]
                except TypeError:
                    pass
        if n in ('tuple', 'list') and len(items) == 1 and items[0].k == 'starred':
            # conversion of an unknown sequence
            r = mk('call', ext('builtins.' + n), (fz(a0),), ())
            return r if n == 'tuple' else E.alloc('list', tuple(items))
        if n == 'tuple':
            return tup(*items)
        return E.alloc('set' if 'set' in n else 'list', tuple(items))
    if n == 'dict':
        d = E.alloc('dict', ())
        for a in args:
            a = E.prune(a)
            if a.k in ('zip', 'enumerate', 'list', 'tuple') or (a.k == 'obj' and a.a[0] in ('list', 'gen')):
                ents = E.entries(a, node)

                def body(v):
                    k, x = E.unpack(v, 2)
                    E.dict_set(d, k, x)
                E.run_entries(ents, body, node)
            else:
                E.dict_update(d, a)
        dict_method(E, d, 'update', [], dict(kwargs), node) if '**' in kwargs else [E.dict_set(d, const(k), v) for k, v in kwargs.items()]
        return d
    if n == 'zip':
        return mk('zip', *args)
    if n == 'enumerate':
        return mk('enumerate', a0, args[1] if len(args) > 1 else kwargs.get('start', const(0)))
    if n == 'map' and len(args) >= 2:
        return mk('mapc', *args)
    if n == 'range':
        if len(args) == 2 and args[0] is const(0):
            args = [args[1]]
        if len(args) == 3 and args[2] is const(1):
            args = args[:2] if args[0] is not const(0) else [args[1]]
        return mk('call', ext('builtins.range'), tuple(fz(a) for a in args), ())
    if n == 'str':
        if not args:
            return const('')
        if a0.k == 'ite':
            return E.branch(a0.a[0], lambda: call_builtin(E, n, [a0.a[1]], {}, node), lambda: call_builtin(E, n, [a0.a[2]], {}, node))
        r = E.str_of(a0)
        if r is not None:
            return r
        if a0.k == 'npdtype':
            return const(a0.a[0])
        if E.types_of(a0) == {'str'}:
            return a0
        if a0.k == 'call' and a0.a[0] is ext('builtins.str'):
            return a0
        return mk('call', ext('builtins.str'), (fz(a0),), ())
    if n in ('int', 'float', 'bool'):
        if not args:
            return const({'int': 0, 'float': 0.0, 'bool': False}[n])
        if is_const(a0) and not kwargs and all(is_const(x) for x in args):
            try:
                return const({'int': int, 'float': float, 'bool': bool}[n](*[x.a[1] for x in args]))
            except Exception:
                pass
        if n == 'bool':
            return E.cond(a0)
        ts = E.types_of(a0)
        if not (ts and ts <= {'int', 'float', 'bool'}) and not (a0.k == 'call' and a0.a[0].k == 'ext' and a0.a[0].a[0].startswith('numpy.')):
            E.emit('convert', n, node, value=a0)
            E.maybe('builtins.ValueError', 'builtins.TypeError', node=node)
        return mk('call', ext('builtins.' + n), tuple(fz(a) for a in args), ())
    if n in ('min', 'max', 'sum', 'abs', 'round'):
        oks = [pyval(fz(a)) for a in args]
        if all(o[0] for o in oks) and not kwargs:
            try:
                from .engine import _bi
                return const(getattr(_bi, n)(*[o[1] for o in oks]))
            except Exception:
                pass
        fa = [fz(a) for a in args]
        if n == 'sum' and len(fa) == 1 and fa[0].k in ('list', 'tuple') and all(is_const(x) and isinstance(x.a[1], (bool, int, float)) for x in fa[0].a):
            return const(sum(x.a[1] for x in fa[0].a))
        if n in ('min', 'max') and len(fa) > 1:
            fa = sorted(fa, key=lambda t: t.id)
        return mk('call', ext('builtins.' + n), tuple(fa), tuple(sorted((k, fz(v)) for k, v in kwargs.items())))
    if n in ('any', 'all'):
        items = E.concrete_items(a0)
        if items is not None:
            cs = [E.cond(x) for x in items]
            return or_(*cs) if n == 'any' else and_(*cs)
        return mk('call', ext('builtins.' + n), (fz(a0),), ())
    if n == 'getattr':
        nm = args[1]
        if is_const(nm):
            if len(args) > 2:
                if a0.k == 'obj' and a0.a[0] in ('inst', 'res'):
                    h = E.h(a0)
                    if nm.a[1] in h.data or (h.kind == 'inst' and E.class_lookup(h.meta, nm.a[1]) is not None):
                        return E.getattr_(a0, nm.a[1], node)
                    if h.kind == 'inst':
                        return args[2]
                return mk('call', ext('builtins.getattr'), tuple(fz(a) for a in args), ())
            return E.getattr_(a0, nm.a[1], node)
        return mk('call', ext('builtins.getattr'), tuple(fz(a) for a in args), ())
    if n == 'hasattr':
        if is_const(args[1]) and a0.k == 'obj' and a0.a[0] == 'inst':
            h = E.h(a0)
            return const(args[1].a[1] in h.data or E.class_lookup(h.meta, args[1].a[1]) is not None)
        return mk('call', ext('builtins.hasattr'), tuple(fz(a) for a in args), ())
    if n == 'setattr':
        if is_const(args[1]):
            E.setattr_(a0, args[1].a[1], args[2], node)
        else:
            E.emit('setattr', '?', node, target=a0, value=args[2], old=None)
        return NONE
    if n == 'next':
        if a0.k == 'obj' and a0.a[0] == 'gen':
            a0 = E.gen_list(a0)
        if a0.k == 'obj' and a0.a[0] == 'list':
            d = E.h(a0).data
            if d and d[0].k not in ('star', 'starred'):
                return d[0]
            if d and d[0].k == 'star':
                r = mk('first', d[0].a[0], fz(a0))
                if len(args) == 1:
                    E.maybe('builtins.StopIteration', node=node)
                    return r
                return ite(mk('truth', fz(a0)), r, args[1])
        if len(args) == 1:
            E.emit('call', 'builtins.next', node, fn=ext('builtins.next'), args=list(args), kwargs={})
            E.maybe('builtins.StopIteration', node=node)
        return mk('call', ext('builtins.next'), tuple(fz(a) for a in args), ())
    if n == 'callable':
        return const(a0.k in ('fn', 'bound', 'cls', 'partial', 'ext'))
    if n == 'super' and len(args) == 2:
        return mk('super', args[0].a[0], args[1])
    if n in ('print', 'id', 'hash', 'vars', 'globals', 'locals', 'dir', 'divmod', 'slice', 'bytes', 'chr', 'ord', 'repr', 'format', 'filter', 'pow', 'issubclass'):
        if n == 'slice':
            a = [fz(x) for x in args]
            a = [NONE, a[0], NONE] if len(a) == 1 else (a + [NONE])[:3]
            return mk('slice', *a)
        if n == 'issubclass':
            return mk('call', ext('builtins.issubclass'), tuple(fz(a) for a in args), ())
        return mk('call', ext('builtins.' + n), tuple(fz(a) for a in args), ())
    if n == 'object':
        return E.alloc('res', {}, ('builtins.object', None))
    return None
