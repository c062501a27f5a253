"""Constant propagation through path and string operations: the name a term gives to a file with a known path."""
import ntpath, os.path, pathlib, posixpath
from .terms import *
from .lib import *

STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'replace', 'partition', 'rpartition', 'removesuffix', 'removeprefix', 'title', 'casefold',
       'find', 'rfind', 'startswith', 'endswith', 'join', 'zfill', 'format', 'capitalize', 'ljust', 'rjust'}
PATH = {'stem', 'name', 'suffix', 'parent', 'suffixes', 'parts'}
PATHM = {'with_suffix', 'with_name', 'with_stem', 'as_posix', 'joinpath'}


def term(v):
    if isinstance(v, (list, tuple)):
        return mk('list' if isinstance(v, list) else 'tuple', *map(term, v))
    if isinstance(v, pathlib.PurePath):
        return mk('purepath', str(v))
    return const(v)


def namer(path, is_file=lambda t: t.k == 'elem'):
    """Rewriting for simp(): the file denoted by is_file has the given path."""
    def val(t):
        t = simp(t, f)
        if t.k == 'purepath':
            return True, pathlib.PurePosixPath(t.a[0])
        if t.k in ('list', 'tuple') and t.a:
            xs = [val(x) for x in t.a]
            return all(o for o, _ in xs), [x for _, x in xs]
        return pyval(t)

    def f(t):
        try:
            return step(t)
        except Exception:
            return None

    def step(t):
        if is_file(t):
            return const(path)
        if t.k == 'attr':
            if is_file(t.a[0]):
                return const(path) if t.a[1] in ('path', 'full_name', 'name') else t
            if t.a[1] in PATH:
                ok, v = val(t.a[0])
                if ok and isinstance(v, pathlib.PurePath):
                    return term(getattr(v, t.a[1]))
            if t.a[1] in ('path', 'full_name') and (callname(t.a[0]) or '').endswith('OpenFile'):
                x = carg(t.a[0], 1, 'path')
                return None if x is None else simp(x, f)
            return None
        if t.k == 'fstr':
            vs = [val(x) if isinstance(x, T) else (True, x) for x in t.a]
            return const(''.join(str(v) for _, v in vs)) if all(o for o, _ in vs) else None
        if t.k == 'bin':
            (o1, x), (o2, y) = val(t.a[1]), val(t.a[2])
            if o1 and o2 and t.a[0] == '+' and isinstance(x, str):
                return const(x + y)
            if o1 and o2 and t.a[0] == '/' and isinstance(x, pathlib.PurePath):
                return term(x / y)
            if o1 and o2 and t.a[0] == '%' and isinstance(x, str):
                return const(x % (tuple(y) if isinstance(y, list) else y))
            return None
        if t.k == 'sub':
            o1, x = val(t.a[0])
            if not o1 or not isinstance(x, (str, list)):
                return None
            k = t.a[1]
            if k.k == 'slice':
                ks = [val(z) for z in k.a]
                return term(x[slice(*[z for _, z in ks])]) if all(o for o, _ in ks) else None
            o2, k = val(k)
            return term(x[k]) if o2 else None
        if t.k == 'call':
            n = callname(t)
            if n is None:
                return None
            args = [val(x) for x in t.a[1]]
            if not all(o for o, _ in args) or t.a[2]:
                return None
            args = [v for _, v in args]
            if n.startswith('.'):
                o, x = val(t.a[0].a[0])
                if o and isinstance(x, str) and n[1:] in STR or o and isinstance(x, pathlib.PurePath) and n[1:] in PATHM:
                    return term(getattr(x, n[1:])(*args))
                return None
            if n in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PurePosixPath', 'pathlib.PosixPath'):
                return term(pathlib.PurePosixPath(*args))
            if n in ('builtins.str', 'builtins.len', 'os.fspath'):
                return const(str(args[0])) if n != 'builtins.len' else const(len(args[0]))
            m, _, fn = n.rpartition('.')
            if m in ('os.path', 'posixpath') and fn in ('basename', 'splitext', 'dirname', 'join', 'split', 'normpath'):
                return term(getattr(posixpath, fn)(*map(str, args)))
        return None
    return f
