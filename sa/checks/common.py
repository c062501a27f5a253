"""Shared parts of the rules: cached scenario runs and the file-effect classification."""
from __future__ import annotations
from functools import lru_cache
from .. import scen
from ..terms import *
from ..terms import T
from ..lib import *

S = sym
KINDS = ('pinhole', 'brown', 'opencv', 'fisheye', 'rpc', 'gcp')


@lru_cache(None)
def ortho(repo, kind, distort=None):
    return scen.ortho(repo, kind, distort)


@lru_cache(None)
def sharpen(repo):
    return scen.sharpen(repo)


@lru_cache(None)
def writer(repo, name, default=False):
    return scen.writer(repo, name, None if default else S('overwrite'))


@lru_cache(None)
def reader(repo, name):
    return scen.reader(repo, name)


@lru_cache(None)
def frame_reader(repo, name):
    return tuple(scen.frame_reader(repo, name))


@lru_cache(None)
def factories(repo):
    return tuple(scen.factories(repo))


def factory(repo, label):
    return [r for r in factories(repo) if r.label == label]


def readers(repo):
    out = [reader(repo, n) for n in scen.READERS]
    for n in scen.FREADERS:
        out.extend(frame_reader(repo, n))
    return out


# ------------------------------------------------------------------ file effects
READ_MODES = ('r', 'rb', 'rt')
DESTRUCT = {'os.remove': 0, 'os.unlink': 0, 'os.replace': 1, 'os.rename': 1, 'os.truncate': 0, 'shutil.move': 1, 'shutil.copy': 1, 'shutil.copyfile': 1,
            'shutil.copy2': 1, 'shutil.rmtree': 0, 'rasterio.shutil.copy': 1, 'rasterio.shutil.delete': 0, 'rasterio.shutil.copyfiles': 1,
            'cv2.imwrite': 0, 'numpy.save': 0, 'numpy.savez': 0, 'numpy.savetxt': 0}
DESTRUCT_METHODS = {'unlink', 'write_text', 'write_bytes', 'rm', 'rm_file', 'delete', 'mv', 'move', 'copy_files', 'pipe', 'pipe_file', 'put', 'put_file', 'truncate', 'rename'}


def ofile_mode(o, guards):
    """Mode of an OpenFile term, using what the guards say about a caller supplied one."""
    if callname(o) in ('fsspec.open', 'fsspec.core.open'):
        m = carg(o, 1, 'mode', const('rb'))
        return pyval(m)[1] if pyval(m)[0] else None
    if callname(o) in ('fsspec.core.OpenFile', 'fsspec.OpenFile'):
        m = carg(o, 2, 'mode', const('rb'))
        if pyval(m)[0]:
            return pyval(m)[1]
    for x, pos in guard_atoms(guards).items():
        if x.k == 'cmp' and (x.a[0], pos) in (('==', True), ('!=', False)):
            for p, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if q.k == 'attr' and q.a[1] == 'mode' and q.a[0] is o and pyval(p)[0]:
                    return pyval(p)[1]
    return None


def idents(E, t):
    """Identity (set of base terms) of the file a path / OpenFile / file object term refers to."""
    out = set()
    for x, _ in leaves(E.freeze(t) if isinstance(t, T) and t.k == 'obj' and False else t):
        while True:
            if x.k == 'attr' and x.a[1] in ('path', 'fs', 'full_name', 'name'):
                x = x.a[0]
            elif x.k == 'obj' and E.h(x) is not None and E.h(x).kind == 'res' and E.h(x).meta and E.h(x).meta[0] == 'fsspec.file':
                x = E.h(x).meta[1]
            elif callname(x) in ('os.fspath', 'builtins.str', 'pathlib.Path', 'fsspec.open', 'fsspec.core.OpenFile', 'fsspec.OpenFile', 'fsspec.core.open') and x.a[1]:
                x = x.a[1][1 if callname(x).endswith('OpenFile') and len(x.a[1]) > 1 else 0]
            else:
                break
            if x.k == 'ite':
                break
        if x.k == 'ite':
            out |= idents(E, x)
        else:
            out.add(x)
    return out


def write_effects(run):
    """Events that create, truncate, replace or delete a file: (event, file term, description)."""
    out = []
    E = run.E
    for e in run.events:
        if e.kind == 'call':
            n = e.name
            if n in ('rasterio.open', 'rasterio.io.DatasetWriter', 'rasterio.io.BufferedDatasetWriter'):
                m = arg(e, 1, 'mode', const('r'))
                if not (pyval(m)[0] and pyval(m)[1] in READ_MODES):
                    out.append((e, arg(e, 0, 'fp'), f'rasterio.open mode {show(m, 3)}'))
            elif n in ('builtins.open', 'io.open'):
                m = arg(e, 1, 'mode', const('r'))
                if not (pyval(m)[0] and pyval(m)[1] in READ_MODES):
                    out.append((e, arg(e, 0, 'file'), f'open mode {show(m, 3)}'))
            elif n in DESTRUCT:
                out.append((e, arg(e, DESTRUCT[n]), n))
            elif n.startswith('.') and n[1:] in DESTRUCT_METHODS:
                recv = e.data.get('recv')
                if n[1:] == 'copy' or recv is None or recv.k in ('dict', 'list'):
                    continue
                f = arg(e, 0) if (recv.k == 'attr' and recv.a[1] == 'fs') else recv
                out.append((e, f if f is not None else recv, n))
            elif n == '.open':
                m = arg(e, 1, 'mode') if e.data.get('recv') is not None and e.data['recv'].k == 'attr' and e.data['recv'].a[1] == 'fs' else arg(e, 0, 'mode')
                if m is not None and not (pyval(m)[0] and pyval(m)[1] in READ_MODES):
                    out.append((e, arg(e, 0) if arg(e, 0) is not None else e.data['recv'], '.open'))
        elif e.kind == 'openfile':
            o = e.data['ofile']
            m = ofile_mode(o, e.guards)
            if m not in READ_MODES:
                out.append((e, o, f'OpenFile mode {m}'))
    return out


# ------------------------------------------------------------------ helpers on loops and workers
def elems(t):
    """Loop element / loop carried subterms."""
    return {x for x in walk(t) if x.k in ('elem', 'lv', 'idx', 'elemof')}


def must_write(t):
    """All alternatives of a ghost write cell are writes (of every iteration of the loops around it)."""
    for x, _ in leaves(t):
        if x.k == 'wrote':
            continue
        if x.k == 'after' and must_write(x.a[3]):
            continue
        return False
    return True


def is_main(e):
    return e.thread == 'main'


def all_runs(ctx, kinds=None):
    """Every analysed entry point of the package (constructors, processing, readers, writers, factories, commands)."""
    out = []
    for k in kinds or (KINDS if ctx.tier == 'thorough' else ('pinhole', 'rpc')):
        r = ortho(ctx.repo, k)
        out += [r.camrun, r.init, r]
    r = sharpen(ctx.repo)
    out += [r.init, r]
    out += [writer(ctx.repo, w) for w in scen.WRITERS]
    out += list(factories(ctx.repo))
    out += readers(ctx.repo)
    out += scen.cli_all(ctx.repo)
    for r in out:
        ctx.use(r)
    return out


# ------------------------------------------------------------------ aliasing
VIEW_METHODS = {'view', 'reshape', 'squeeze', 'ravel', 'transpose', 'swapaxes', 'diagonal', 'items', 'values', 'keys', 'get', 'setdefault', '__getitem__'}
VIEW_FUNCS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.reshape', 'numpy.squeeze', 'numpy.ravel',
              'numpy.transpose', 'numpy.swapaxes', 'numpy.moveaxis', 'numpy.rollaxis', 'numpy.broadcast_to', 'numpy.expand_dims', 'numpy.ascontiguousarray',
              'numpy.asfortranarray', 'numpy.require', 'numpy.split', 'numpy.array_split', 'numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'builtins.iter', 'builtins.next',
              'builtins.reversed', 'builtins.vars', 'builtins.getattr', 'typing.cast', 'numpy.diagonal', 'numpy.rot90', 'numpy.lib.stride_tricks.as_strided'}
FRESH_ATTRS = {'profile', 'shape', 'bounds', 'meta', 'crs', 'transform', 'dtypes', 'nodata', 'colorinterp', 'gcps', 'rpcs'}


def basic_index(k):
    return k.k == 'slice' or (k.k == 'const' and not isinstance(k.a[1], (list,))) or (k.k == 'tuple' and all(basic_index(x) for x in k.a)) or \
        k.k in ('index', 'elem', 'enum', 'attr', 'fstr', 'sub')


def sliced(k):
    return k.k == 'slice' or (k.k == 'tuple' and any(sliced(x) for x in k.a))


def arrayish(t):
    return all(callname(x) and (callname(x).startswith('numpy.') or callname(x) in ('.read', '.astype', '.filled', '.view', '.reshape')) for x, _ in leaves(t))


def bases(t, elt=False, depth=0):
    """Terms whose memory a mutation of `t` changes (view / element-of chains followed to their base)."""
    if depth > 60:
        return {t}
    k, a = t.k, t.a
    r = lambda x, e=elt: bases(x, e, depth + 1)
    if k == 'ite':
        return r(a[1]) | r(a[2])
    if k in ('upd', 'updattr', 'popd'):
        return r(a[0])
    if k == 'outof':
        return r(a[1])
    if k == 'lv':
        return r(a[2])
    if k == 'after':
        return r(a[2]) | r(a[3])
    if k == 'sub':
        if a[0].k in ('tuple', 'list') and is_const(a[1]) and isinstance(a[1].a[1], int) and -len(a[0].a) <= a[1].a[1] < len(a[0].a):
            return r(a[0].a[a[1].a[1]])
        if a[0].k == 'copyof':
            return {a[0]} if sliced(a[1]) or arrayish(a[0].a[0]) else r(a[0].a[0], True)
        if a[0].k == 'dict':
            out = {t}
            for e in a[0].a:
                if isinstance(e, T) and e.k == 'spread':
                    out |= r(e.a[0], True)
            return out
        if not basic_index(a[1]):
            return {t}              # boolean / integer array indexing copies
        return r(a[0], True)
    if k in ('elem', 'first', 'dget', 'popped'):
        return r(a[0], True)
    if k == 'attr':
        if a[1] in FRESH_ATTRS and not (a[0].k == 'obj' and a[0].a[0] == 'inst'):
            return {t}
        return r(a[0], True)
    if k == 'copyof':
        return {t} if not elt else r(a[0], True)
    if k == 'call':
        n = callname(t)
        if n and n.startswith('.') and (n[1:] in VIEW_METHODS or (n == '.astype' and carg(t, None, 'copy') is FALSE)):
            return r(a[0].a[0])
        if n in VIEW_FUNCS and a[1]:
            return r(a[1][0])
        if n in ('numpy.array', 'numpy.nan_to_num') and carg(t, None, 'copy') is FALSE and a[1]:
            return r(a[1][0])
        d = carg(t, None, 'out')
        if d is not None:
            return r(d)
        return {t}
    return {t}


def reachable(E, v, out=None, depth=0):
    """Values reachable from v through containers and instances (values, not only objects)."""
    if out is None:
        out = set()
    if v in out or depth > 40:
        return out
    out.add(v)
    kids = ()
    if v.k == 'obj':
        h = E.st.heap.get(v.a[1])
        if h is None:
            return out
        if h.kind in ('list', 'set'):
            kids = h.data
        elif h.kind == 'dict':
            kids = [x for e in h.data for x in (e if isinstance(e, tuple) else e.a[:2] if e.k == 'dstar' else e.a[:1])]
        elif h.kind in ('inst', 'res'):
            kids = list(h.data.values())
        elif h.kind == 'array':
            kids = [h.data]
    elif v.k in ('tuple', 'list', 'set'):
        kids = v.a
    elif v.k == 'dict':
        kids = [x for e in v.a for x in (e if isinstance(e, tuple) else e.a[:2] if e.k == 'dstar' else e.a[:1])]
    elif v.k == 'ite':
        kids = v.a[1:]
    elif v.k == 'star':
        kids = v.a[:1]
    elif v.k in ('bound',):
        kids = v.a[1:]
    elif v.k == 'partial':
        kids = v.a[1] + tuple(x for _, x in v.a[2])
    for x in kids:
        if isinstance(x, T):
            reachable(E, x, out, depth + 1)
    return out


IMMUT = ('const', 'tuple', 'enum', 'fn', 'cls', 'mod', 'ext', 'fstr', 'bound', 'partial', 'cmp', 'not', 'and', 'or', 'truth', 'isinst', 'npdtype')


def shared_bases(E, *vals):
    out = set()
    for v in vals:
        for x in reachable(E, v):
            if x.k not in IMMUT:
                out |= bases(x)
    return out
