"""C05: files opened by the package are closed, files of the caller are not."""
from .common import *

OPENERS = {'fsspec.file': 'a file', 'rasterio.open': 'an image', 'rasterio.vrt.WarpedVRT': 'a virtual image', 'builtins.open': 'a file', 'io.open': 'a file', 'rasterio.io.MemoryFile': 'a memory file'}


def atoms(t):
    if t.k in ('not', 'and', 'or', 'ite'):
        return set().union(*[atoms(x) for x in t.a])
    return {t} if t.k != 'const' else set()


def still_open(E, guards, h):
    k = (h.data['~open'], guards)
    if k not in CACHE:
        CACHE[k] = still_open_(E, guards, h)
    return CACHE[k]


CACHE = {}


def still_open_(E, guards, h):
    """Whether the resource can be open in a state, given everything known there (propositional consistency only)."""
    o = h.data['~open']
    env = dict(guard_atoms(guards))
    seen = atoms(o)
    rel, todo = [], [g for g in guards if g.k in ('and', 'or', 'ite', 'not')]
    for _ in range(2):
        for g in list(todo):
            if atoms(g) & seen:
                rel.append(g)
                todo.remove(g)
                seen |= atoms(g)
    for n, e in enumerate(poss(o, True, env)):
        if n > 200:
            return True
        envs = [e]
        for g in rel:
            envs = [f for x in envs[:200] for f in poss(g, True, x)]
        if envs:
            return True
    return False


def callers(E, t):
    """Alternatives of a context manager / receiver term that are objects the caller supplied (or parts of one)."""
    out = []
    for x, _ in leaves(t):
        b = x
        while b.k in ('attr', 'sub', 'elem', 'lv') and isinstance(b.a[0], T):
            b = b.a[0]
        if b.k == 'sym' or (b.k in ('elem', 'elemof') and any(y.k == 'sym' for y in walk(b))):
            if x.k == 'attr' and x.a[1] in ('fs',):
                continue
            out.append(x)
    return out


def check(ctx):
    ctx.rule('closed-normal', 'no file, image or virtual image opened during the operation is still open when it returns', 20)
    ctx.rule('closed-error', 'none is still open when the operation (or a parallel task) ends with any exception, after the clean-up code on the way out has been applied', 20)
    ctx.rule('callers-open', 'a dataset or file object of the caller is never entered as a context manager that closes it, and never closed explicitly', 20)
    for r in all_runs(ctx):
        E = r.E
        opens = {}
        for e in r.events:
            if e.kind == 'openfile' or (e.kind == 'call' and isinstance(e.data.get('result'), T)):
                o = e.data['value'] if e.kind == 'openfile' else e.data['result']
                if o.k == 'obj' and o.a[0] == 'res':
                    opens.setdefault(o.a[1], e)
        own = set(opens)
        left = [(i, h) for i, h in open_res(r.st_end) if i in own and still_open(E, r.st_end.guards, h)] if r.st_end is not None else []
        ctx.ob('closed-normal', r.label, not left, '; '.join(f'{OPENERS.get(h.meta[0], h.meta[0])} opened at {opens[i].loc} is not closed' for i, h in left)[:300],
               where(opens[left[0][0]]) if left else r.label)
        bad = {}
        for x in r.escapes:
            if x.st is None:
                continue
            for i, h in open_res(x.st):
                if i in own and still_open(E, x.st.guards, h):
                    bad.setdefault(i, (h, x))
        for s in r.events:
            if s.kind == 'submit' and s.data.get('leaks'):
                for i, h, x, g in s.data['leaks']:
                    if still_open(E, g, h):
                        bad.setdefault(i, (h, x))
        ctx.ob('closed-error', r.label, not bad, '; '.join(f'{OPENERS.get(h.meta[0], h.meta[0])} opened at {opens[i].loc if i in opens else "?"} stays open when {x.cls} is raised at {x.loc}'
                                                           for i, (h, x) in bad.items())[:400], where(opens[next(iter(bad))]) if bad and next(iter(bad)) in opens else r.label)
        cl = []
        for e in r.events:
            if e.kind == 'enter' and e.name == '?':
                cl += [(e, x) for x in callers(E, e.data['cm'])]
            elif e.kind == 'call' and e.name in ('.close', '.__exit__', '.detach', '.__enter__'):
                cl += [(e, x) for x in callers(E, e.data['recv'])]
            elif e.kind in ('enter', 'exit') and e.name == 'contextlib.closing':
                a = E.st.heap[e.data['cm'].a[1]].data.get('__arg0__')
                cl += [(e, x) for x in (callers(E, a) if a is not None else [])]
        ctx.ob('callers-open', r.label, not cl, '; '.join(f'{show(x, 3)[:60]} is closed (or entered, which closes it) at {e.loc}' for e, x in cl)[:300], where(cl[0][0]) if cl else r.label)
