"""C16: what the package raises for user input ends as a click exception in every command (exception-effect summaries)."""
from .common import *
from .. import scen
from ..scen import Q

D, OF, LS = ('DatasetReader',), ('OpenFile',), ('list',)
FILES = ('builtins.FileNotFoundError', 'builtins.FileExistsError')
PARSE = ('yaml.', 'json.', 'csv.', 'xml.', 'builtins.FileNotFoundError', 'rasterio.errors.', 'orthority.errors.')
CTX = dict(src_file=D, dem_file=D, pan_file=D, ms_file=D, out_file=OF, out_dir=OF, int_param=OF, ext_param=OF, rpc_param=OF,
           gcps_any=OF + LS, files=LS)


def user_errors(run):
    """Classes of the errors for user input that leave the operation: {class: location}."""
    out = {}
    for x in run.escapes:
        if x.cls.startswith(Q + 'errors.') or x.cls in FILES:
            out.setdefault(x.cls, str(x.loc))
        elif x.cls == 'builtins.ValueError' and not x.implicit and '.fit.' in str(x.loc):
            out.setdefault(x.cls, str(x.loc))             # number of control points
    return out


def summaries(ctx):
    repo = ctx.repo
    out = {}

    def add(run, *names):
        ctx.use(run)
        for n in names:
            out.setdefault(n, {}).update(user_errors(run))
    for k in ('pinhole', 'rpc'):
        r = scen.ortho(repo, k, **CTX)
        add(r.init, 'ortho.Ortho.__init__')
        add(r, 'ortho.Ortho.process')
    r = scen.sharpen(repo, **CTX)
    add(r.init, 'pan_sharp.PanSharpen.__init__')
    add(r, 'pan_sharp.PanSharpen.process')
    for r in scen.factories(repo, **CTX):
        n = r.label
        add(r, 'factory.' + n + ('' if '.' in n else '.__init__'))
    return out


def dir_checked(E, decl):
    """The callback of the output directory option makes sure that the directory exists."""
    cb = dict(decl.a[2]).get('callback')
    if cb is None:
        t = dict(decl.a[2]).get('type')
        return t is not None and dict(t.a[2] if t.k == 'call' else ()).get('exists') is TRUE
    v, esc, ev = E.run(cb, [S('cb_ctx'), S('cb_param'), S('cb_str')])
    return any(e.kind == 'call' and e.name.split('.')[-1] in ('isdir', 'mkdirs', 'makedirs', 'mkdir', 'is_dir', 'exists') for e in ev)


def file_checked(E, decl):
    """The callback of the output file option opens it for writing (fsspec creates its directory, or fails there)."""
    cb = dict(decl.a[2]).get('callback')
    if cb is None:
        return False
    v, esc, ev = E.run(cb, [S('cb_ctx'), S('cb_param'), S('cb_str')])
    for e in ev:
        if e.kind in ('call', 'openfile') and e.name.split('.')[-1] in ('open', 'open_files', 'openfile'):
            if any(x.k == 'const' and isinstance(x.a[1], str) and 'w' in x.a[1] for x in list(e.data.get('args') or ()) + list((e.data.get('kwargs') or {}).values())):
                return True
    return False


def excludes(e, x, conds):
    """The raise statement is reached only if the value x is missing."""
    facts = facts_rewrite(list(conds))

    def given(t):
        if t is mk('truth', x):
            return TRUE
        if t.k == 'cmp' and t.a[0] in ('is', '==', 'isnot', '!=') and set(t.a[1:]) == {x, NONE}:
            return const(t.a[0] in ('isnot', '!='))
        return facts(t)
    return impossible(list(e.guards), given) and not impossible(list(e.guards), lambda t: NONE if t is x else facts(t))


def check(ctx):
    ctx.rule('translated', 'every error for user input that an operation can raise (exception summary of the whole call tree) is turned into a click exception by the command that calls it', 25)
    ctx.rule('own', 'no such error raised in the command itself (opening the DEM, the source image ...) escapes it', 5)
    ctx.rule('callbacks', 'option callbacks let only click exceptions escape for values that cannot be parsed or files that cannot be read', 8)
    ctx.rule('no-crs', 'a CRS taken from an image file that has none is not used', 1)
    ctx.rule('not-success', 'no exception handler of a command ends normally', 5)
    summ = summaries(ctx)
    raises = {n: tuple(d) for n, d in summ.items()}
    for c in scen.COMMANDS:
        r = ctx.use(scen.cli(ctx.repo, c, raises=raises))
        out_dir = next((d for n, d in r.options.items() if n == 'out_dir'), None)
        out_file = next((d for n, d in r.options.items() if n == 'out_file'), None)
        fchecked = out_file is not None and file_checked(scen.new(ctx.repo), out_file)
        checked = out_dir is not None and dir_checked(scen.new(ctx.repo), out_dir)
        for e in r.api:
            for cls, loc in summ.get(e.name, {}).items():
                if cls == 'builtins.FileNotFoundError' and checked and e.name.endswith(('Ortho.process', '.write_param')):
                    continue                                                      # the output directory is known to exist
                if cls == 'builtins.FileNotFoundError' and fchecked and e.name.endswith('PanSharpen.process'):
                    continue
                bad = [x for x in r.escapes if x.via == e.name and x.cls == cls and str(x.loc) == str(e.loc)]
                ctx.ob('translated', f'{r.label} {e.name}: {cls.split(".")[-1]}', not bad, f'{cls} raised at {loc} is not caught where {e.name} is called', where(e))
        own = [x for x in r.escapes if x.via is None and (x.cls in FILES or x.cls.startswith(Q + 'errors.'))]
        ctx.ob('own', r.label, not own, '; '.join(f'{x.cls} at {x.loc}' for x in own)[:300], str(own[0].loc) if own else '')
        bad = [e for e in r.events if e.kind == 'handled']
        ctx.ob('not-success', r.label, not bad, '; '.join(f'{e.name} caught at {e.loc} and dropped' for e in bad)[:300], where(bad[0]) if bad else '')
    E = scen.new(ctx.repo, cb_str=('str', 'None'), cb_seq=('tuple', 'list'))
    seen = set()
    for c in scen.COMMANDS:
        fn, ps = scen.commands(E)[c]
        for n, d in ps.items():
            cb = dict(d.a[2]).get('callback')
            if cb is None or cb in seen:
                continue
            seen.add(cb)
            seq = n == 'src_files' or dict(d.a[2]).get('multiple') is TRUE or (dict(d.a[2]).get('nargs') not in (None, const(1)))
            v, esc, ev = E.run(cb, [S('cb_ctx'), S('cb_param'), S('cb_seq' if seq else 'cb_str')])
            bad = [x for x in esc if x.cls.startswith(PARSE)]    # (a str cannot fail to decode)
            ctx.ob('callbacks', f'{c} {n}', not bad, '; '.join(f'{x.cls} at {x.loc}' for x in bad)[:300], str(bad[0].loc) if bad else '')
            bad = [x for x in ev if x.kind == 'handled']
            ctx.ob('not-success', f'{c} {n} callback', not bad, '; '.join(f'{x.name} caught at {x.loc} and dropped' for x in bad)[:300])
            if v is None:
                continue
            for x, conds in leaves(E.freeze(v)):
                if x.k == 'attr' and x.a[1] == 'crs':
                    ok = any(excludes(e, x, conds) for e in ev if e.kind == 'raise')
                    ctx.ob('no-crs', f'{c} {n}', ok, 'the value of the option can be the CRS of an image without CRS: ' + show(x, 3)[:150])
