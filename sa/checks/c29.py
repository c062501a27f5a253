"""C29: the refined RPC coefficients, as an algebraic normal form, give the refined pixel coordinates."""
from .common import *
from .. import scen
from ..rows import *
from ..scen import Q
from .c12 import D
from .c14 import subterms
from .c28 import OFF, COEFS, FULL, rpc_terms, same_rows

AX = ('samp', 'line')


def field(t, key):
    """Value of a key of a dictionary, the term that reads it from the parameters passed in, or None."""
    while True:
        if t.k == 'copyof':
            t = t.a[0]
        elif t.k == 'upd':
            if pyval(t.a[1]) == (True, key):
                return t.a[2]
            if not pyval(t.a[1])[0]:
                return None
            t = t.a[0]
        elif t.k == 'dict':
            for k, v in pairs(t):
                if pyval(k) == (True, key):
                    return v
            return None
        elif t.k == 'call' and callname(t) in ('copy.deepcopy', 'copy.copy', 'builtins.dict') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] == 'copy':
            t = t.a[0].a[0]
        else:
            return mk('sub', t, const(key))


def pairs(t):
    """(key, value) pairs of a dictionary term; terms that add unknown pairs are left out."""
    return [x for x in t.a if isinstance(x, tuple) and len(x) == 2]


def per_gcp(t):
    """Field of every GCP that a list or array is made of."""
    if t.k == 'list' and len(t.a) == 1 and t.a[0].k == 'star':
        x = t.a[0].a[0]
        while x.k == 'call' and callname(x) in ('builtins.tuple', 'builtins.list', 'numpy.array', 'numpy.asarray') and len(x.a[1]) == 1:
            x = x.a[1][0]
        if x.k == 'sub' and x.a[0].k == 'elem' and syms(x.a[0]) == {'gcps'} and pyval(x.a[1])[0]:
            return pyval(x.a[1])[1]
    return None


class Model:
    def __init__(self, repo, given, method):
        self.errs, self.fits = [], set()
        if given == 'dict':
            self.E = E = scen.new(repo)
            rpc = D(E, **{n: S('rpc_' + n) for n in sorted(OFF | COEFS)})
        else:
            self.E = E = scen.new(repo, rpc=('rasterio.rpc.RPC',))
            rpc = S('rpc')
        v, self.esc, _ = E.run(E.modvar(Q + 'fit', 'refine_rpc'), [rpc, S('gcps')], dict(method=const(method)))
        self.t = None if v is None else E.freeze(v)
        n = [scalar('L'), scalar('P'), scalar('H')]
        self.world = [scalar(f'{a}_off') + scalar(f'{a}_scale') * x for a, x in zip(('long', 'lat', 'height'), n)]
        poly = lambda c: total(symarr(c, 20).get(i) * m for i, m in enumerate(rpc_terms(*n)))
        # normalised pixel coordinates: measured, and by the RPC model
        self.gcp = [(scalar(f'ji[{i}]') - scalar(f'{a}_off')) / scalar(f'{a}_scale') for i, a in enumerate(AX)]
        self.model = [poly(f'{a}_num_coeff') / poly(f'{a}_den_coeff') for a in AX]
        self.A = Algebra(opaque=self.opaque, lim=FULL, dotlim=FULL, generic=True)

    def fit(self, x, y):
        """Coefficients of the regression of y on x."""
        x, y = unlazy(self.A.val(x)) if isinstance(x, T) else x, unlazy(self.A.val(y)) if isinstance(y, T) else y
        for i in range(2):
            if isinstance(x, Rat) and isinstance(y, Rat) and x == self.model[i] and y == self.gcp[i]:
                return arr([scalar(f'm{i}'), scalar(f'c{i}')])
        self.errs.append('a regression is not of the measured on the modelled normalised pixel coordinates of one axis')
        return arr([scalar('?'), scalar('?')])

    def opaque(self, x):
        if x.k == 'sym' and x.a[0].startswith('rpc_'):
            n = x.a[0][4:]
            return scalar(n) if n in OFF else symarr(n, 20)
        n = x.a[1] if x.k == 'attr' else pyval(x.a[1])[1] if x.k == 'sub' and pyval(x.a[1])[0] else None
        if isinstance(n, str) and (n in OFF or n in COEFS) and not (x.k == 'attr' and x.a[0].k == 'ext'):
            if x.k == 'sub':
                f = field(x.a[0], n)
                if f is not None and f is not x and f.k != 'sub':
                    return self.A.val(f)
            return scalar(n) if n in OFF else symarr(n, 20)
        g = per_gcp(x)
        if g in ('ji', 'xyz'):
            return Arr(lambda i: scalar(f'ji[{i}]') if g == 'ji' else self.world[i], 2 if g == 'ji' else 3, t=True)
        if x.k == 'sub' and pyval(x.a[1]) == (True, 0) and x.a[0].k == 'call' and callname(x.a[0]) in ('numpy.linalg.lstsq', 'scipy.linalg.lstsq'):
            m, b = x.a[0].a[1][:2]
            m = unlazy(self.A.val(m))
            if isinstance(m, Arr) and m.n == 2 and m.t:
                c = [m.get(0), m.get(1)]
                if isinstance(c[1], Rat) and c[1].const() == 1:
                    return self.fit(c[0], b)
                if isinstance(c[0], Rat) and c[0].const() == 1:
                    r = self.fit(c[1], b)
                    return arr([r.get(1), r.get(0)])
            self.errs.append('the regression is not one of scale and offset')
            return arr([scalar('?'), scalar('?')])
        if x.k == 'call' and callname(x) == 'numpy.polyfit' and len(x.a[1]) == 3 and pyval(x.a[1][2]) == (True, 1):
            return self.fit(*x.a[1][:2])
        return None


def check(ctx):
    ctx.rule('coefficients', 'the refined numerator coefficients are those that give the modelled pixel coordinates, scaled and shifted by the fitted amounts', 8)
    ctx.rule('unchanged', 'all other parameters are those passed in', 8)
    ctx.rule('enough', 'fewer GCPs than the method has unknowns per axis are refused', 2)
    for method in ('shift', 'shift-drift'):
        for given in ('dict', 'RPC'):
            M = Model(ctx.repo, given, method)
            lab = f'refine_rpc, {method}, parameters as {given}'
            ctx.seen(M.E, lab)
            if M.t is None:
                ctx.ob('coefficients', lab, False, 'it has no normal exit')
                continue
            for n in sorted(OFF | COEFS):
                f = field(M.t, n)
                if n.endswith('num_coeff'):
                    i = AX.index(n[:4])
                    if method == 'shift':
                        m, cs = rat(1), [fn('mean', M.gcp[i] - M.model[i]), fn('mean', M.gcp[i]) - fn('mean', M.model[i])]
                    else:
                        m, cs = scalar(f'm{i}'), [scalar(f'c{i}')]
                    num, den = symarr(n, 20), symarr(n.replace('num', 'den'), 20)
                    bad = ['it is missing' if f is None else same_rows(M.A, f, [m * num.get(j) + c * den.get(j) for j in range(20)]) for c in cs]
                    bad = None if None in bad else bad[0]
                    ctx.ob('coefficients', f'{lab}: {n}', bad is None and not M.errs, bad or '; '.join(sorted(set(M.errs))))
                else:
                    v = None if f is None else unlazy(M.A.val(f))
                    if n in OFF:
                        ok = isinstance(v, Rat) and v == scalar(n)
                    else:
                        ok = isinstance(v, Arr) and same_rows(M.A, v, symarr(n, 20).rows()) is None
                    ctx.ob('unchanged', f'{lab}: {n}', ok, 'it is not the value passed in')
    for method, k in (('shift', 1), ('shift-drift', 2)):
        for n in range(3):
            E = scen.new(ctx.repo)
            rpc = D(E, **{f: S('rpc_' + f) for f in sorted(OFF | COEFS)})
            gs = E.alloc('list', [D(E, ji=S(f'ji{i}'), xyz=S(f'xyz{i}')) for i in range(n)])
            v, esc, _ = E.run(E.modvar(Q + 'fit', 'refine_rpc'), [rpc, gs], dict(method=const(method)))
            lab = f'refine_rpc, {method}, {n} GCP(s)'
            ctx.seen(E, lab)
            if n < k:
                ctx.ob('enough', lab, v is None and any(x.cls == 'builtins.ValueError' for x in esc), 'it is not refused with a ValueError')
            else:
                ctx.ob('enough', lab, v is not None, 'it has no normal exit')
