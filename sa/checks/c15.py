"""C15: images of a batch do not influence each other (no loop-carried values, no shared module state)."""
from .common import *
from .. import scen
from ..names import namer

MULTI = ('read_im_rpc_param', 'read_im_gcps', 'ExifReader.read_ext_param', 'ExifReader.read_int_param')
STATE = ('lv', 'after')


def free(t, bound=frozenset(), memo=None):
    """Loop elements and loop-carried values of t not bound by an inner comprehension or loop."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        out = set()
        if isinstance(t, tuple):
            for x in t:
                out |= free(x, bound, memo)
        return out
    key = (t.id, bound)
    if key in memo:
        return memo[key]
    memo[key] = set()
    if t.k in ('star', 'dstar'):
        gens = t.a[-2]
        b = bound | {g[1] for g in gens if isinstance(g, tuple) and len(g) > 1}
        out = set()
        for x in t.a:
            out |= free(x, b, memo)
    elif t.k == 'elem':
        out = free(t.a[0], bound, memo)
        if t.a[1] not in bound:
            out = out | {t}
    elif t.k in STATE:
        b = bound | {t.a[0]}
        out = set() if t.a[0] in bound or t.k == 'after' else {t}
        for x in t.a[1:]:
            out |= free(x, b if t.k == 'after' else bound, memo)
    else:
        out = set()
        for x in t.a:
            out |= free(x, bound, memo)
    memo[key] = out
    return out


def fixed_index(t, coll):
    """Elements taken at a constant position from the per-image collection."""
    for x in walk(t):
        if x.k == 'sub' and is_const(x.a[1]) and isinstance(x.a[1].a[1], int) and (x.a[0] in coll or x.a[0].k == 'list' and any(
                isinstance(y, T) and y.k == 'star' and any(isinstance(g, tuple) and g[0] in coll for g in y.a[-2]) for y in x.a[0].a)):
            yield x
        if callname(x) in ('builtins.next', 'builtins.min', 'builtins.max') and any(y in coll for a in x.a[1] for y in walk(a)) and callname(x) == 'builtins.next':
            yield x


PATHS = ['/data/' + n + '.tif' for n in (
    'a', 'A', 'b', 'a.1', 'a.2', '1.a', '2.a', 'a_1', 'a_2', 'a-1', 'a 1', 'img_RGB', 'img_NIR', 'RGB_img', 'NIR_img', 'RGB', 'NIR', 'a.tif', 'img_RGB.v1', 'img_RGB.v2',
    'DJI_0123456789_0123456789_0123456789_0001', 'DJI_0123456789_0123456789_0123456789_0002', '1_DJI_0123456789_0123456789_0123456789', '2_DJI_0123456789_0123456789_0123456789', 'a_ORTHO', 'ORTHO', '_')]


def carried(t, loops):
    """Values carried from one iteration of one of the loops to the next."""
    return [x for x in walk(t) if x.k == 'lv' and (loops is None or x.a[0] in loops)]


def check(ctx):
    ctx.rule('carried', 'what a command passes to the API for one image has no value carried over from another image', 20)
    ctx.rule('own', 'source image, camera and output name of one orthorectification come from the same image', 8)
    ctx.rule('distinct', 'images with different names (without directory and extension) get different output names', 1)
    ctx.rule('entry', 'each entry a reader returns is made from one image, row or record and has its key from the same one', 8)
    ctx.rule('key', 'entries for image files are stored under the name of the image they describe', 3)
    ctx.rule('shared', 'no public operation changes state shared by all calls (module variables, class attributes, default arguments)', 20)
    for r in scen.cli_all(ctx.repo):
        ctx.use(r)
        per = [e for e in r.api if e.name in ('ortho.Ortho.__init__', 'ortho.Ortho.process') or e.name.endswith(('Cameras.get',))]
        for e in per:
            for p, v in e.bound.items():
                c = carried(v, None)
                fr = {x for x in free(v) if x.k == 'elem'}
                fixed = list(fixed_index(v, {r.opts.get('src_files')}))
                ctx.ob('carried', f'{r.label} {e.name}({p})', not c and not fixed, 'depends on ' + ', '.join(show(x, 2)[:80] for x in c + fixed) if c or fixed else '', where(e))
                if p in ('src_file', 'camera', 'ortho_file', 'filename'):
                    own = {x.a[1] for x in fr}
                    res = set()
                    for x in walk(v):
                        if x.k == 'obj' and r.E.st is not None and x.a[1] in r.E.st.heap:
                            m = r.E.h(x).meta
                            if isinstance(m, tuple) and len(m) > 1 and isinstance(m[1], T):
                                res |= {y.a[1] for y in free(m[1]) if y.k == 'elem'}
                    e.data[p + '~'] = own | res
        # the loop every argument is taken from
        loops = {}
        for e in per:
            for p in ('src_file', 'camera', 'ortho_file', 'filename'):
                if p + '~' in e.data:
                    loops[(e.name, p, where(e))] = e.data[p + '~']
        allv = [x for x in loops.values()]
        common_ = set.intersection(*allv) if allv else set()
        for k, v in loops.items():
            ctx.ob('own', f'{r.label} {k[0]}({k[1]})', bool(common_), f'elements of loops {sorted(map(str, v))}; no loop over images is common to all arguments', k[2])
        for e in per:
            if e.name == 'ortho.Ortho.process' and 'ortho_file' in e.bound:
                t = e.bound['ortho_file']
                name = [x for x in walk(t) if x.k == 'attr' and x.a[1] in ('stem', 'name') and any(y.k == 'elem' for y in walk(x))]
                name += [x for x in walk(t) if callname(x) in ('os.path.splitext', 'os.path.basename', 'posixpath.splitext', 'posixpath.basename') and any(y.k == 'elem' for y in walk(x))]
                ctx.ob('own', f'{r.label} output name', bool(name), 'the output name is not made from the name of the source image: ' + show(t, 4)[:200], where(e))
                got = {}
                for p in PATHS:
                    v = simp(t, namer(p))
                    if not any(x.k == 'elem' for x in walk(v)):
                        got.setdefault(v, []).append(p)
                clash = [v for v in got.values() if len(v) > 1]
                ctx.ob('distinct', f'{r.label} output name', not clash, f'images {clash[:1]} get the same output name', where(e))
    for r in readers(ctx.repo):
        ctx.use(r)
        if r.value is None:
            continue
        for x, _ in leaves(r.E.freeze(r.value)):
            if x.k != 'dict':
                continue
            for i, p in enumerate(x.a):
                if not (isinstance(p, T) and p.k == 'dstar'):
                    continue
                key, val, gens = p.a[0], p.a[1], p.a[2]
                uids = {g[1] for g in gens}
                fk, fv = free(key), free(val)
                alien = [y for y in fk | fv if y.k == 'elem' and y.a[1] not in uids and not {z.a[1] for z in walk(y.a[0]) if z.k == 'elem'} & uids]
                alien += [y for y in fv if y.k == 'lv'] + [y for y in fk if y.k == 'lv']
                ku, vu = ({y.a[1] for y in s if y.k == 'elem'} & uids for s in (fk, fv))
                coll = {g[0] for g in gens}
                fixed = list(fixed_index(val, coll | {S('files')}))
                ok = not alien and bool(ku) and vu <= ku and not fixed
                ctx.ob('entry', f'{r.label} entries', ok, 'an entry depends on ' + ', '.join(show(y, 2)[:80] for y in alien + fixed) if alien or fixed else
                       f'key from loop elements {sorted(map(str, ku))}, value from {sorted(map(str, vu))}')
                if r.label in MULTI:
                    named = all(any(y.k == 'attr' and y.a[1] in ('name', 'filename', 'path') or callname(y) == 'os.path.basename' for y in walk(q)) for q, _ in leaves(key))
                    ctx.ob('key', f'{r.label} key', named, 'entries of different images can have the same key, and the last one replaces the others: ' + show(key, 3)[:150])
    for r in all_runs(ctx):
        E = r.E
        bad = []
        for e in r.events:
            if e.kind not in ('mut', 'setattr', 'setglobal'):
                continue
            tg = e.data.get('target')
            for x in ([y for y, _ in leaves(tg)] if isinstance(tg, T) else []):
                if x.k == 'obj' and x.a[1] in E.load_heap:
                    bad.append((e, x))
                elif x.k in ('cls', 'mod'):
                    bad.append((e, x))
        for e, x in bad:
            ctx.ob('shared', f'{r.label}:{where(e)}', False, f'{e.kind} {e.name} changes {show(x, 2)[:80]}, which outlives the call', where(e))
        if not bad:
            ctx.ob('shared', r.label, True)
