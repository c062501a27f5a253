"""C20: output format settings (case split of the gated value graph over the finite option domains)."""
import itertools, math
from .common import *
from .. import scen
from ..scen import Q

D = ('DatasetReader',)
CTX = dict(src_file=D, dem_file=D, pan_file=D, ms_file=D, out_file=('OpenFile',))
TYPES = ('uint8', 'uint16', 'int16', 'float32', 'float64')
NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=math.nan, float64=math.nan)
OTHER = ('int8', 'uint32', 'int32', 'uint64', 'int64', 'complex64', 'float16', 'bool')
STRUCT = {'driver', 'dtype', 'width', 'height', 'count', 'nodata', 'crs', 'transform', 'bigtiff', 'sharing', 'thread_safe', '**'}


def is_nodata(v, dt):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return False
    return v != v if NODATA[dt] != NODATA[dt] else v == NODATA[dt]


def assume(E, vals):
    """Rewriting of the option symbols to the given values, folding enumeration conversions."""
    memo = {}
    strenum = {}

    def bodies(entry):
        """(key, value) pairs or values that a comprehension over a known dictionary yields, or None."""
        parts, loops, conds = (entry.a[:2], *entry.a[2:4]) if entry.k == 'dstar' else (entry.a[:1], *entry.a[1:3])
        if len(loops) != 1:
            return None
        seq, lid = loops[0]
        src = simp(seq, f, memo)
        if src.k == 'const' and src is NONE:
            return ()
        if src.k != 'dict' or not all(isinstance(p, tuple) and p[0].k == 'const' for p in src.a):
            return None
        out = []
        for k, v in src.a:
            put = lambda x: k if x.k == 'elem' and x.a[-1] == lid else None
            cs = [simp(simp(c, put), f) for c in conds]
            if FALSE in cs:
                continue
            if any(c is not TRUE for c in cs):
                return None
            out.append(tuple(simp(simp(x, put), f) for x in parts))
        return out

    def is_str(q):
        if q not in strenum:
            strenum[q] = 'builtins.str' in E.mro_names(E.classes[q]) if q in E.classes else False
        return strenum[q]

    def f(t):
        if t.k == 'sym' and t.a[0] in vals:
            return vals[t.a[0]]
        if t.k == 'enumconv':
            v = simp(t.a[1], f, memo)
            if v.k == 'enum' and v.a[0] == t.a[0]:
                return v
            if v.k in ('const', 'enum'):
                for m in E.enum_members(t.a[0]):
                    if m.a[2] is (v if v.k == 'const' else v.a[2]):
                        return m
        elif t.k == 'attr' and t.a[1] in ('value', 'name'):
            v = simp(t.a[0], f, memo)
            if v.k == 'enum':
                return v.a[2] if t.a[1] == 'value' else const(v.a[1])
        elif t.k == 'cmp' and t.a[0] in ('==', '!=', 'is', 'isnot', 'in', 'notin'):
            x, y = simp(t.a[1], f, memo), simp(t.a[2], f, memo)
            if t.a[0] in ('in', 'notin'):
                if x.k == 'enum' and y.k in ('tuple', 'list', 'set'):
                    hit = any(z is x or (is_str(x.a[0]) and z is x.a[2]) for z in y.a)
                    return const(hit == (t.a[0] == 'in'))
                return None
            if 'enum' in (x.k, y.k) and all(z.k in ('enum', 'const') for z in (x, y)):
                strict = t.a[0] in ('is', 'isnot')
                eq = x is y or (not strict and any(z.k == 'enum' and is_str(z.a[0]) for z in (x, y)) and
                                (x.a[2] if x.k == 'enum' else x) is (y.a[2] if y.k == 'enum' else y))
                return const(eq == (t.a[0] in ('==', 'is')))
        elif t.k == 'isinst':
            v = simp(t.a[0], f, memo)
            if v.k in ('const', 'enum') and t.a[1].k == 'tuple':
                names = {'builtins.' + type(v.a[1]).__name__} if v.k == 'const' else set(E.mro_names(E.classes[v.a[0]]))
                return const(bool(names & {c.a[0] for c in t.a[1].a}))
        elif t.k == 'truth':
            v = simp(t.a[0], f, memo)
            if v.k == 'enum':
                return TRUE
            if v.k in ('list', 'tuple') and not any(isinstance(p, T) and p.k in ('star', 'starred', 'ite') for p in v.a):
                return const(len(v.a) > 0)
        elif t.k in ('dict', 'list', 'tuple') and any(isinstance(p, T) and p.k in ('dstar', 'star') for p in t.a):
            out = []
            for p in t.a:
                if isinstance(p, T) and p.k in ('dstar', 'star'):
                    b = bodies(p)
                    if b is None:
                        return None
                    for x in b:
                        if t.k == 'dict':
                            out = [y for y in out if not (isinstance(y, tuple) and y[0] is x[0])]
                        out.append(x if t.k == 'dict' else x[0])
                else:
                    out.append(simp(p, f, memo))
            return mk(t.k, *out)
        elif t.k == 'first' and len(t.a) > 1:
            v = simp(t.a[1], f, memo)
            if v.k == 'list' and v.a and v.a[0].k not in ('star', 'starred'):
                return v.a[0]
        elif t.k == 'call':
            n = callname(t)
            if n == 'builtins.str' and len(t.a[1]) == 1:
                v = simp(t.a[1][0], f, memo)
                if v.k == 'const' and isinstance(v.a[1], str):
                    return v
                if v.k == 'enum' and is_str(v.a[0]):
                    return v.a[2]
                if v is NONE:
                    return const('None')
            elif n in ('.lower', '.upper', '.strip') and not t.a[1]:
                v = simp(t.a[0].a[0], f, memo)
                if v.k == 'enum' and is_str(v.a[0]):
                    v = v.a[2]
                if v.k == 'const' and isinstance(v.a[1], str):
                    return const(getattr(v.a[1], n[1:])())
            elif n == '.get' and t.a[1]:
                d, k = simp(t.a[0].a[0], f, memo), simp(t.a[1][0], f, memo)
                if d.k == 'dict' and k.k == 'const' and all(isinstance(p, tuple) and p[0].k == 'const' for p in d.a):
                    for p in d.a:
                        if p[0] is k:
                            return p[1]
                    return simp(t.a[1][1], f, memo) if len(t.a[1]) > 1 else NONE
            elif n == 'builtins.getattr' and len(t.a[1]) >= 2 and t.a[1][1] in (const('value'), const('name')):
                v = simp(t.a[1][0], f, memo)
                if v.k == 'enum':
                    return v.a[2] if t.a[1][1] is const('value') else const(v.a[1])
                if v.k == 'const' and len(t.a[1]) == 3:
                    return simp(t.a[1][2], f, memo)
            elif n == 'builtins.len' and len(t.a[1]) == 1:
                v = simp(t.a[1][0], f, memo)
                if v.k == 'dict' and all(isinstance(p, tuple) for p in v.a):
                    return const(len(v.a))
        elif t.k == 'dget':
            d, k = simp(t.a[0], f, memo), simp(t.a[1], f, memo)
            if d.k == 'dict' and k.k == 'const' and all(isinstance(p, tuple) and p[0].k == 'const' for p in d.a):
                for p in d.a:
                    if p[0] is k:
                        return p[1]
                return simp(t.a[2], f, memo) if len(t.a) > 2 and isinstance(t.a[2], T) else NONE
        elif t.k == 'sub':
            d, k = simp(t.a[0], f, memo), simp(t.a[1], f, memo)
            if d.k == 'dict' and k.k == 'const':
                for p in d.a:
                    if isinstance(p, tuple) and p[0] is k:
                        return p[1]
        return None
    return f


def dct(**kw):
    return mk('dict', *[(const(k), const(v)) for k, v in kw.items()])


def values(t):
    return [x for x, _ in leaves(t)]


def filtered(t, f):
    """A spread over some of the elements only."""
    return t.k == 'dstar' and any(x.k == 'elem' for c in t.a[3] for x in walk(c))


def spread(st, f):
    """The options that a ** argument adds under the assumptions, or None if they are not known."""
    if st is None:
        return {}
    d = simp(mk('dict', *(st.a if st.k in ('tuple', 'list', 'dict') else (st,))), f)
    if not all(isinstance(p, tuple) and p[0].k == 'const' and pyval(p[1])[0] for p in d.a):
        return None
    return {p[0].a[1].lower(): pyval(p[1])[1] for p in d.a}


def fold(t, f):
    """Alternatives of the value under the assumptions, without the impossible ones."""
    t = simp(t, f)
    return [x for x, c in leaves(t) if not impossible(c, lambda _: None)]


def check(ctx):
    ctx.rule('one', 'the file is created with the nodata value of its data type and no mask is written, or without nodata value and a mask is written', 100)
    ctx.rule('setting', 'a mask is written exactly if the caller set it, or left it unset and the compression used is JPEG', 100)
    ctx.rule('compression', 'the compression is the one given, and if it was not, JPEG for uint8 and DEFLATE for other types', 50)
    ctx.rule('options', 'creation options given by the caller are passed on, and no other compression, tiling, photometric or overview options', 20)
    ctx.rule('refused', 'unsupported data types, and JPEG compression of types other than uint8 and uint16, are refused before the file is created', 20)
    ctx.rule('basic', 'driver, data type are the ones given; the data type of the source is used if none is given', 10)
    runs = [scen.sharpen(ctx.repo, **CTX)] + [scen.ortho(ctx.repo, k, **CTX) for k in (('pinhole',) if ctx.tier == 'quick' else KINDS)]
    for r in runs:
        ctx.use(r)
        E = r.E
        OPT = {'dtype', 'compress', 'write_mask', 'creation_options', 'driver'}
        rel = {}

        def guards(e):
            if e.i not in rel:
                rel[e.i] = [g for g in e.guards if syms(g) & OPT]
            return rel[e.i]
        opens = [e for e, _, d in write_effects(r) if e.name == 'rasterio.open' and e.kind == 'call']
        masks = [e for e in r.events if e.kind == 'call' and e.name == '.write_mask']
        mem = {n: {m.a[1]: m for m in E.enum_members(Q + 'enums.' + n)} for n in ('Compress', 'Driver')}
        comps = [NONE] + list(mem['Compress'].values()) + [m.a[2] for m in mem['Compress'].values()]
        drivers = list(mem['Driver'].values()) + [m.a[2] for m in mem['Driver'].values()]
        cos = [NONE, mk('dict'), dct(tiled=False), dct(compress='jpeg'), dct(compress='deflate', zlevel=9), dct(compress='JPEG'), dct(COMPRESS='jpeg', TILED=True)]
        if ctx.tier == 'quick':
            drivers = drivers[:1] + drivers[-1:]
        names = lambda v: v.a[2].a[1] if v.k == 'enum' else v.a[1] if v.k == 'const' else {p[0].a[1]: p[1].a[1] for p in v.a}
        for dt, cp, wm, co, dr in itertools.product(TYPES + OTHER[:3 if ctx.tier == 'quick' else None], comps, (NONE, TRUE, FALSE), cos, drivers):
            if ctx.tier == 'quick' and dr is not drivers[0] and (co is not NONE or wm is not NONE):
                continue
            f = assume(E, dict(dtype=const(dt), compress=cp, write_mask=wm, creation_options=co, driver=dr))
            given = co is not NONE and len(co.a) > 0
            co_d = names(co) if given else {}
            used = str({k.lower(): v for k, v in co_d.items()}.get('compress', '')).lower() if given else names(cp) if cp is not NONE else 'jpeg' if dt == 'uint8' else 'deflate'
            bad = dt in OTHER or (not given and used == 'jpeg' and dt not in ('uint8', 'uint16'))
            label = f'{r.label} dtype={dt} compress={names(cp)} write_mask={names(wm)} options={co_d} driver={names(dr)}'
            for e in opens:
                if bad:
                    ctx.ob('refused', f'{r.label} dtype={dt} compress={used}', impossible(guards(e), f), 'the output is created with ' + label, where(e))
                    continue
                if impossible(guards(e), f):
                    ctx.ob('refused', label, False, 'a supported combination is refused', where(e))
                    continue
                kw = e.data['kwargs']
                g = lambda k: [v for v in fold(kw[k], f)] if k in kw else [ABSENT]
                nd = g('nodata')
                live = [m for m in masks if not impossible(guards(m), f)]
                want = (used == 'jpeg') if wm is NONE else wm is TRUE
                has_nd = all(v.k == 'const' and is_nodata(v.a[1], dt) for v in nd)
                no_nd = all(v is NONE or v is ABSENT for v in nd)
                ctx.ob('one', label, (has_nd and not live) or (no_nd and bool(live)), f'nodata is {[show(v, 2) for v in nd]} and a mask is {"" if live else "not "}written', where(e))
                ctx.ob('setting', label, bool(live) == want, f'a mask is {"" if live else "not "}written', where(e))
                cv = g('compress')
                if not given:
                    ctx.ob('compression', label, all(v.k in ('const', 'enum') and str(names(v)).lower() == used for v in cv), f'compression is {[show(v, 2) for v in cv]}', where(e))
                else:
                    extra = [k for k in kw if k not in STRUCT and k not in co_d and any(v is not ABSENT for v in g(k))]
                    st = kw.get('**')
                    ex = spread(st, f)
                    passed = ex is not None and {**ex, **{k.lower(): pyval(v[0])[1] for k in kw if k.lower() in {x.lower() for x in co_d} for v in [g(k)] if v[0] is not ABSENT and len(v) == 1}} == {
                        k.lower(): v for k, v in co_d.items()} or all(k in kw and [x for x in g(k) if pyval(x) == (True, v)] for k, v in co_d.items()) or (st is not None and 'creation_options' in syms(st) and not any(filtered(x, f) for x in walk(st)))
                    ctx.ob('options', label, not extra and passed, f'extra options {extra}' if extra else 'the creation options are not passed on', where(e))
                    over = [k for k in co_d if k in kw and any(v is not ABSENT and pyval(v) != (True, co_d[k]) for v in g(k))]
                    ctx.ob('options', label + ' replaced', not over, f'options {over} do not have the value given', where(e))
                dv, tv = g('driver'), g('dtype')
                ctx.ob('basic', f'{r.label} driver={names(dr)}', all(v.k in ('const', 'enum') and names(v) == names(dr) for v in dv), f'driver is {[show(v, 2) for v in dv]}', where(e))
                ctx.ob('basic', f'{r.label} dtype={dt}', all(pyval(v) == (True, dt) for v in tv), f'data type is {[show(v, 2) for v in tv]}', where(e))
        f = assume(E, dict(dtype=NONE))
        src = 'ms_file' if 'Sharp' in r.label else 'src_file'
        for e in opens:
            tv = fold(e.data['kwargs'].get('dtype', ABSENT), f)
            ok = all(any(x.k == 'attr' and x.a[1] in ('dtypes', 'profile') for x in walk(v)) and src in syms(v) for v in tv)
            ctx.ob('basic', f'{r.label} dtype unset', ok, f'data type is {[show(v, 4) for v in tv]}', where(e))
