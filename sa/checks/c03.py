"""C03: no failed or skipped tile, band or file goes unnoticed."""
import ast
from .common import *


def waited(ctx, run):
    res = [e for e in run.events if e.kind == 'result' and e.name == 'result' and is_main(e)]
    for s in run.events:
        if s.kind != 'submit' or s.name != 'executor':
            continue
        f = s.data.get('future')
        key = f'{run.label}:{where(s)}'
        mine = [e for e in res if e.data['future'] is f]
        ok = any(set(e.guards) <= set(s.guards) and len(e.loops) >= len(s.loops) for e in mine)
        ctx.ob('waited', key, ok, 'the result of the submitted task is not waited for unconditionally, so its failure can go unnoticed'
               if not mine else 'the result of the submitted task is waited for only when ' +
               ' / '.join(show(g, 3) for g in mine[0].guards if g not in s.guards)[:200], where(s))
        cond = [g for g in s.guards if any(x.k in ('elem', 'index', 'lv') and x.a[-1 if x.k != 'lv' else 0] in {l[1] for l in s.loops} for x in walk(g))]
        own = [g for g in cond if not raised_otherwise(run, g, s)]
        ctx.ob('every', key, not own, 'the task is submitted only when ' + ' / '.join(show(g, 3) for g in own)[:300], where(s))
        for e in [s] + mine:
            for b in run.events:
                if b.kind == 'leaveloop' and b.loops and is_main(b) and b.stack == e.stack and b.loops == e.loops[:len(b.loops)]:
                    ctx.ob('every', f'{key}:{b.name}', False, f'{b.name} leaves the loop over the tasks early', where(b))


def raised_otherwise(run, g, e):
    """The case excluded by guard g is one in which the operation raises."""
    n = not_(g)
    for x in run.events:
        if x.kind == 'raise' and x.i < e.i and (n in x.guards or any(h.k == 'or' and n in h.a for h in x.guards) or (n.k == 'and' and set(n.a) <= set(x.guards))):
            return True
    return g.k == 'or'          # implications recorded at joins exclude nothing by themselves


def optional_file(run, e):
    """The handler only covers a missing side-car file: FileNotFoundError from opening a path other than the argument's own."""
    if e.name not in ('builtins.FileNotFoundError', 'builtins.OSError|builtins.FileNotFoundError'):
        return False
    locs = {l for c, l, i in e.data['raises'] if c != '?'}
    opens = [c for c in run.events if c.kind == 'call' and c.name in ('.open', 'builtins.open', 'fsspec.open') and str(c.loc) in locs]
    for c in opens:
        p = arg(c, 0)
        if p is None or p.k in ('sym', 'attr'):
            return False
    return bool(opens)


def check(ctx):
    ctx.rule('waited', 'result() of every task handed to a worker is called by the coordinating thread, under no condition that the submission was not under', 6)
    ctx.rule('every', 'tasks are submitted for every element of the collections iterated over: no condition on the element other than one that raises, and no early exit from the loop', 6)
    ctx.rule('written', 'every normal end of the tile task has written the tile (must-write dataflow over the worker function)', 3)
    ctx.rule('collected', 'what each task returns is stored in the result for every input file, under no condition', 3)
    ctx.rule('commands', 'every command reaches process() for each of its source files on every path that ends normally', 5)
    ctx.rule('not-dropped', 'no exception handler, suppressing context manager or exit method that can catch a failure of reading, processing or writing ends normally '
             '(side-car files that are missing excepted)', 30)
    ctx.rule('finally', 'no finally block returns, breaks or continues (which would drop the exception)', 10)
    runs = all_runs(ctx)
    for r in runs:
        waited(ctx, r)
        bad = [e for e in r.events if e.kind == 'handled' and not optional_file(r, e)]
        bad += [e for e in r.events if e.kind == 'enter_context' and e.data['cm'].k == 'obj' and e.data['cm'].a[0] == 'res' and
                (r.E.st.heap.get(e.data['cm'].a[1]) is not None and r.E.st.heap[e.data['cm'].a[1]].meta[0] == 'contextlib.suppress')]
        ctx.ob('not-dropped', r.label, not bad, '; '.join(f'{e.name} raised at {[x[1] for x in e.data.get("raises", [])][:3]} is caught at {e.loc} and dropped' for e in bad)[:400],
               where(bad[0]) if bad else '')
    for r in runs:
        if r.label.startswith('Ortho.process(') or r.label == 'PanSharpen.process':
            ws = [e for e in r.events if e.kind == 'submit' and e.data.get('writes') and e.data['writes'][0] is not None and
                  any(x.k == 'wrote' for x in walk(e.data['writes'][0]))]
            ctx.ob('written', r.label + ':exists', bool(ws), 'no tile task that writes was found', r.label)
            for e in ws:
                ctx.ob('written', f'{r.label}:{where(e)}', must_write(e.data['writes'][0]), 'the tile task can end normally without having written its tile: ' +
                       show(e.data['writes'][0], 4)[:200], where(e))
        if r.label in ('read_im_rpc_param', 'read_im_gcps', 'ExifReader'):
            v = r.E.freeze(r.value)
            if v.k == 'obj':
                v = tup(*[r.E.freeze(x) for x in r.E.h(v).data.values() if isinstance(x, T)])
            stars = [x for x in walk(v) if x.k == 'dstar' and any('files' in syms(l[0]) for l in x.a[2])]
            for x in stars:
                bad = [g for g in x.a[3] if g.k != 'or']
                ctx.ob('collected', r.label, not bad, 'the value read from a file is stored only when ' + ' / '.join(show(g, 3) for g in bad)[:200], r.label)
            ctx.ob('collected', r.label + ':exists', bool(stars), 'no entry per input file in the result', r.label)
    for c in scen.cli_all(ctx.repo):
        g = c.E.st.heap[-1].data if c.E.st is not None else None
        ctx.ob('commands', c.label, g is not None and must_write(g) and not [b for b in c.events if b.kind == 'leaveloop' and any(x.k == 'wrote' for x in walk(g)) and
               any(a.name.endswith('.process') and b.loops and b.loops == a.loops[:len(b.loops)] and b.stack == a.stack for a in c.api)],
               'process() is not reached for every source file: ' + (show(g, 4)[:200] if g is not None else ''), c.label)
    E = runs[0].E
    for m in E.mods.values():
        bad = []
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and n.finalbody:
                todo = list(n.finalbody)
                while todo:
                    x = todo.pop()
                    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                        bad.append(x.lineno)
                    todo.extend(ast.iter_child_nodes(x))
        ctx.ob('finally', m.name, not bad, f'a finally block of {m.name} ends with return / break / continue (line {bad})', m.name)
    # results of executor.map that nobody iterates over
    for m in E.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'map' and \
                    any(e.kind == 'execmap' and e.loc.line == n.lineno for r in runs for e in r.events):
                ctx.ob('waited', f'{m.name}:map', False, f'the results of map() at {m.name}:{n.lineno} are never consumed', m.name)
