"""C25: conversions to integer data types round and saturate (abstract interpretation over data type, value range and integrality)."""
import struct
from collections import namedtuple
from .common import *
from .. import scen
from ..scen import Q
from ..models import NPDT, dtname

St = namedtuple('St', 'dt lo hi integral')
INF = float('inf')
ROUND = ('round', 'around', 'rint', 'round_')
SAME = ('ascontiguousarray', 'reshape', 'squeeze', 'transpose', 'copy', 'ravel', 'nan_to_num', 'array', 'asarray', 'asanyarray', 'expand_dims', 'stack', 'vstack', 'concatenate')
INTS = [d for d in NPDT if NPDT[d][0] == 'i']


def full(dt):
    if dt not in NPDT:
        return St(dt, -INF, INF, False)
    k, lo, hi = NPDT[dt]
    return St(dt, lo, hi, k == 'i') if k == 'i' else St(dt, -INF, INF, False)


def rep(v, dt):
    """The value a bound has when stored in a float data type."""
    if dt == 'float32':
        try:
            return struct.unpack('f', struct.pack('f', float(v)))[0]
        except OverflowError:
            return INF if v > 0 else -INF
    if dt == 'float64':
        return float(v)
    return v


class Ev:
    def __init__(self, E, fallback=None):
        self.E, self.bad, self.memo, self.fallback = E, [], {}, fallback

    def num(self, t):
        """Lowest / highest value of a scalar bound, None if unknown."""
        ok, v = pyval(t)
        if ok and isinstance(v, (int, float)) and not isinstance(v, bool):
            return v
        if t.k == 'call' and len(t.a[1]) == 1 and not t.a[2]:
            return self.num(t.a[1][0])
        return None

    def cast(self, s, dt, how):
        if dt is None or s is None:
            return St(dt, -INF, INF, False) if dt is None else full(dt)
        if NPDT[dt][0] == 'f':
            return St(dt, s.lo, s.hi, s.integral)
        lo, hi = NPDT[dt][1:]
        if not s.integral:
            self.bad.append(f'{how}: {s.dt or "floating point"} values are converted to {dt} without rounding')
        if s.lo < lo or s.hi > hi:
            self.bad.append(f'{how}: {s.dt or "unlimited"} values in [{s.lo}, {s.hi}] are converted to {dt} without limiting them to [{lo}, {hi}]')
        return St(dt, max(lo, s.lo), min(hi, s.hi), True)

    def clip(self, s, lo, hi):
        for b in (lo, hi):
            if b is not None and s.dt in INTS and not NPDT[s.dt][1] <= b <= NPDT[s.dt][2]:
                self.bad.append(f'limit {b} is outside the range of the {s.dt} array being limited')
        l = s.lo if lo is None else max(s.lo, rep(lo, s.dt))
        h = s.hi if hi is None else min(s.hi, rep(hi, s.dt))
        return St(s.dt, l, h, s.integral and all(b is None or float(b).is_integer() for b in (lo, hi)))

    def join(self, ss):
        ss = [s for s in ss if s is not None]
        if not ss:
            return None
        dts = {s.dt for s in ss}
        return St(dts.pop() if len(dts) == 1 else None, min(s.lo for s in ss), max(s.hi for s in ss), all(s.integral for s in ss))

    def ev(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._ev(t)
        return self.memo[t]

    def _ev(self, t):
        E = self.E
        if t.k == 'const' and isinstance(t.a[1], (int, float)) and not isinstance(t.a[1], bool):
            v = t.a[1]
            return St(None, v, v, v == v and abs(v) != INF and float(v).is_integer()) if v == v else None
        if t.k == 'obj' and t.a[0] == 'array' and t.a[1] in E.st.heap:
            return self.ev(E.h(t).data)
        if t.k == 'ite':
            return self.join([self.ev(t.a[1]), self.ev(t.a[2])])
        if t.k in ('lv', 'after'):
            d = E.dtype_of(t)
            return full(d or self.fallback)
        if t.k == 'sym' and t.a[0] == 'nodata' or t.k == 'attr' and t.a[1] in ('nodata', 'nodatavals'):
            return None       # the nodata value of the image written to
        if t.k in ('upd', 'outof'):
            base, val = (t.a[0], t.a[2]) if t.k == 'upd' else (t.a[1], t.a[0])
            bd = E.dtype_of(base)
            s = self.ev(val)
            if t.k == 'outof' and callname(t.a[0]) == 'cv2.remap':
                src = self.ev(t.a[0].a[1][0])
                s = src and full(src.dt)
            if s is not None and bd in NPDT:
                s = self.cast(s, bd, 'assignment to an array')
            if t.k == 'upd':
                s = self.join([self.ev(base), s])
            return s and s._replace(dt=bd)
        if t.k == 'sub' or t.k == 'copyof' or (t.k == 'attr' and t.a[1] == 'T'):
            return self.ev(t.a[0])
        if t.k == 'bin' and t.a[0] in ('+', '-', '*', '/'):
            d = E.dtype_of(t) or 'float64'
            return full(d)
        if t.k == 'call':
            f, a, kw = t.a[0], t.a[1], dict(t.a[2])
            kw.pop('out', None)
            n, meth = None, False
            if f.k == 'ext' and f.a[0].startswith('numpy.'):
                n = f.a[0][6:]
            elif f.k == 'ext' and f.a[0].startswith('method.'):
                n = f.a[0][7:]
            elif f.k == 'attr':
                n, a = f.a[1], (f.a[0], *a)
                meth = True
            if n in ROUND and a:
                s = self.ev(a[0])
                dec = a[1] if len(a) > 1 and n != 'rint' else kw.get('decimals')
                if s is None or dec is not None and not (is_const(dec) and dec.a[1] in (0, None)):
                    return s
                return s._replace(integral=True)
            if n == 'clip' and a:
                s = self.ev(a[0])
                lo = a[1] if len(a) > 1 else kw.get('a_min', kw.get('min', NONE))
                hi = a[2] if len(a) > 2 else kw.get('a_max', kw.get('max', NONE))
                return s and self.clip(s, self.num(lo), self.num(hi))
            if n in ('minimum', 'maximum', 'fmin', 'fmax') and len(a) >= 2 and not meth:
                for x, b in ((a[0], a[1]), (a[1], a[0])):
                    v = self.num(b)
                    s = v is not None and self.ev(x)
                    if s:
                        return self.clip(s, None, v) if n.endswith('min') or n == 'minimum' else self.clip(s, v, None)
                return self.join([self.ev(a[0]), self.ev(a[1])])
            if n == 'where' and len(a) == 3:
                return self.join([self.ev(a[1]), self.ev(a[2])])
            if n in ('astype',) and a:
                d = a[1] if len(a) > 1 else kw.get('dtype')
                return self.conv(self.ev(a[0]), d, 'astype')
            if n == 'view' and meth:
                return full(None)
            if n in ('full', 'full_like', 'zeros', 'zeros_like', 'empty', 'empty_like', 'ones', 'ones_like'):
                d = E.dtype_of(t)
                fv = const(0) if n[0] == 'z' else const(1) if n[0] == 'o' else (kw.get('fill_value') or (a[1] if len(a) > 1 else None)) if n[0] == 'f' else None
                s = self.ev(fv) if fv is not None else None
                return s and (self.cast(s, d, 'fill value') if d in NPDT else s._replace(dt=d))
            if n in SAME and a:
                x = a[0]
                s = self.join([self.ev(y) for y in x.a]) if x.k in ('tuple', 'list') else self.ev(x)
                d = kw.get('dtype') or (a[1] if n in ('array', 'asarray', 'asanyarray') and len(a) > 1 else None)
                return self.conv(s, d, n) if d is not None else s
            if n == 'filled' and meth:
                return self.ev(a[0])
            d = self.E.dtype_of(t)
            return full(d or self.fallback)
        d = E.dtype_of(t)
        return full(d or self.fallback)

    def conv(self, s, d, how):
        if d is None or s is None:
            return s
        ds = {dtname(self.E, x) for x, _ in leaves(d)}
        if len(ds) == 1 and None not in ds:
            return self.cast(s, ds.pop(), how)
        if s.integral:
            return s._replace(dt=None)
        return St(None, s.lo, s.hi, s.integral)


def show_bad(ev):
    return '; '.join(dict.fromkeys(ev.bad)) or 'rounded and limited'


def check(ctx):
    ctx.rule('pairs', 'convert_array_dtype rounds and limits to the output range before every conversion to an integer data type, for every pair of data types, and returns the output data type', 20)
    ctx.rule('sharpen', 'what pan-sharpening writes has been rounded and limited to the integer output data type', 3)
    ctx.rule('source', 'source images read with another data type, undistorted and remapped are never converted to an integer data type without rounding and limiting', 4)
    src = ['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'float32', 'float64']
    dst = ['uint8', 'uint16', 'int16', 'float32', 'float64', 'int32', 'uint32']
    for a in src:
        for b in dst:
            E = scen.new(ctx.repo)
            E.dtypes['arr'] = a
            f = E.modvar(Q + 'common', 'convert_array_dtype')
            o = E.alloc('array', sym('arr'))
            v, esc, ev = E.run(f, [o, const(b)])
            if v is None:
                ctx.ob('pairs', f'{a} to {b}', False, 'the conversion never returns')
                continue
            x = Ev(E)
            s = x.ev(E.freeze(v))
            if not x.bad and (s is None or s.dt != b):
                x.bad.append(f'the returned data type is {s and s.dt}')
            if not x.bad and NPDT[b][0] == 'i' and (s.lo > max(NPDT[a][1], NPDT[b][1]) or s.hi < min(NPDT[a][2], NPDT[b][2])):
                x.bad.append(f'values are limited to [{s.lo}, {s.hi}], which is narrower than the range of {b}')
            ctx.use(scen.Run(E, f'convert_array_dtype({a}, {b})', v, esc, ev))
            ctx.ob('pairs', f'common.convert_array_dtype {a} to {b}', not x.bad, show_bad(x))
    for b in ('uint8', 'int16', 'uint16') if ctx.tier == 'quick' else INTS:
        r = ctx.use(scen.sharpen(ctx.repo, out_dtype=b))
        E = r.E
        done = False
        for t in written(r):
            done = True
            x = Ev(E, 'float64')
            s = x.ev(t)
            if s is not None:
                x.cast(s, b, 'write')
            ctx.ob('sharpen', f'written pan-sharpened array, {b}', not x.bad, show_bad(x))
        if not done:
            ctx.ob('sharpen', f'written pan-sharpened array, {b}', False, 'no written array found')
    for kind in ('pinhole', 'opencv', 'brown', 'fisheye', 'rpc') if ctx.tier != 'quick' else ('pinhole', 'brown', 'rpc'):
        for distort in ((None,) if kind == 'rpc' else (TRUE, FALSE)):
            for op in ('read', 'remap'):
                E = scen.new(ctx.repo)
                cam, _, _ = scen.camera(E, kind, distort)
                m = E.getattr_(cam, op)
                lab = f'{kind}.{op}' + ('' if distort is None else f'(distort={distort.a[1]})')
                if op == 'read':
                    E.dtypes['~read'] = 'float64'
                    v, esc, ev = E.run(m, [sym('im')], dict(indexes=S('indexes'), dtype=const('uint8'), nodata=S('nodata'), interp=S('interp')))
                    arr = v
                else:
                    E.dtypes['image'] = 'uint8'
                    v, esc, ev = E.run(m, [E.alloc('array', sym('image')), S('x'), S('y'), S('z')], dict(nodata=S('nodata'), interp=S('interp')))
                    v = E.freeze(v) if v is not None else None
                    arr = None
                    if v is not None:
                        tl = [x for x, _ in leaves(v)]
                        arr = tl[0].a[0] if tl and tl[0].k == 'tuple' else None
                ctx.use(scen.Run(E, lab, v, esc, ev))
                if arr is None:
                    ctx.ob('source', lab, False, 'no resulting array found')
                    continue
                x = Ev(E, 'float64')
                s = x.ev(E.freeze(arr))
                if not x.bad and s is not None and s.dt in NPDT and s.dt != 'uint8':
                    x.bad.append(f'the resulting data type is {s.dt}, not the requested uint8')
                ctx.ob('source', lab, not x.bad, show_bad(x))


def written(r):
    out, ws = [], []
    for e in r.events:
        if e.kind == 'submit' and e.data['writes'][0] is not None:
            ws.append(e.data['writes'][0])
    g = r.E.st.heap.get(-1) if r.E.st is not None else None
    if g is not None and isinstance(g.data, T):
        ws.append(g.data)
    for w in ws:
        for x in walk(w):
            if x.k == 'wrote' and x.a[1] and x.a[1][0] not in out:
                out.append(x.a[1][0])
    return out
