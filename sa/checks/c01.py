"""C01: an existing file is replaced only on request."""
from .common import *


def qualifies(E, t, files):
    """t is `<file>.fs.exists(<file>.path)` of one of the files."""
    if t.k == 'call' and t.a[0].k == 'attr' and t.a[0].a[1] in ('exists', 'isfile', 'lexists') and t.a[1]:
        recv = t.a[0].a[0]
        if not (recv.k == 'attr' and recv.a[1] == 'fs'):
            return False
        if not any(x.k == 'attr' and x.a[1] in ('path', 'full_name') for x, _ in leaves(t.a[1][0])):
            return False
        return idents(E, recv) <= files and idents(E, t.a[1][0]) <= files
    return False


def effects(ctx, run, rule, overwrite):
    E = run.E
    for e, f, d in write_effects(run):
        files = idents(E, f)
        if any(callname(x) and callname(x).startswith('tempfile.') for t in files for x in walk(t)):
            continue

        def assume(t):
            if t.k == 'sym' and t.a[0] == 'overwrite' and overwrite:
                return FALSE
            if qualifies(E, t, files):
                return TRUE
            return None
        ok = impossible(e.guards, assume)
        ctx.ob(rule, f'{run.label}:{where(e)}:{d}', ok,
               f'{d} of {" / ".join(sorted(show(x, 3) for x in files))} is reachable when that file exists and overwriting was not requested', where(e))


def refusal(ctx, run, rule):
    ctx.ob(rule, run.label, any(x.cls == 'builtins.FileExistsError' and not x.implicit for x in run.escapes),
           'no FileExistsError leaves the operation', run.label)


def check(ctx):
    ctx.rule('write-guarded', 'every operation that creates, truncates, replaces or deletes a file is unreachable when overwrite is false '
             'and <file>.fs.exists(<file>.path) of that same file is true (guards folded under that assumption)', 12)
    ctx.rule('write-guarded-default', 'the same with the overwrite argument left at its default', 4)
    ctx.rule('refusal', 'each writing operation can end with FileExistsError', 6)
    ctx.rule('cli', 'the overwrite option of every command reaches the overwrite argument of each writing operation it calls, unchanged, and is off by default', 10)
    for k in (KINDS if ctx.tier == 'thorough' else ('pinhole', 'rpc')):
        r = ctx.use(ortho(ctx.repo, k))
        effects(ctx, r, 'write-guarded', True)
        refusal(ctx, r, 'refusal')
        for e, f, d in write_effects(r.init):
            ctx.ob('write-guarded', f'{r.init.label}:{where(e)}:{d}', False, f'{d}: constructing writes to a file', where(e))
    r = ctx.use(sharpen(ctx.repo))
    effects(ctx, r, 'write-guarded', True)
    refusal(ctx, r, 'refusal')
    for w in scen.WRITERS:
        r = ctx.use(writer(ctx.repo, w))
        effects(ctx, r, 'write-guarded', True)
        refusal(ctx, r, 'refusal')
        effects(ctx, ctx.use(writer(ctx.repo, w, True)), 'write-guarded-default', False)
    for r in factories(ctx.repo):
        ctx.use(r)
        effects(ctx, r, 'write-guarded', True)
        if r.label.endswith('write_param'):
            refusal(ctx, r, 'refusal')
    for r in readers(ctx.repo):
        ctx.use(r)
        effects(ctx, r, 'write-guarded', True)
    for lbl, r in scen.defaults(ctx.repo):
        ctx.use(r)
        effects(ctx, r, 'write-guarded-default', False)
    for c in scen.cli_all(ctx.repo):
        ctx.use(c)
        for e in c.api:
            if e.name.endswith(('.process', '.write_param')):
                ow = e.bound.get('overwrite')
                ctx.ob('cli', f'{c.label}:{e.name}', ow is c.opts.get('overwrite'),
                       f'overwrite={show(ow) if ow is not None else "(not passed)"}', where(e))
        o = c.options.get('overwrite')
        d = dict(o.a[2]).get('default', FALSE) if o is not None else None
        ctx.ob('cli', f'{c.label}:default', d is FALSE and dict(o.a[2]).get('is_flag') is TRUE, f'default of the overwrite option: {show(d) if d is not None else None}', c.label)
        effects(ctx, c, 'write-guarded', False)
