"""C04: parallel workers share image datasets and data safely."""
from .common import *

ACCESS = {'read', 'write', 'write_mask', 'read_masks', 'dataset_mask', 'sample', 'build_overviews', 'update_tags', 'checksum', 'statistics', 'stats', 'set_band_description',
          'write_colormap', 'tags', 'block_windows', 'window', 'xy', 'index', 'close', 'flush', 'write_band', 'write_transform', 'reproject'}


def concurrent(run, e, s):
    """Access e of the coordinating thread can happen while the task submitted at s runs."""
    res = [x for x in run.events if x.kind == 'result' and x.name == 'result' and x.data['future'] is s.data['future']]
    if not res:
        return e.i > s.i
    if s.i < e.i < max(x.i for x in res):
        return True
    if e.i > s.i and any(l in e.iters and l not in s.iters for x in res for l in x.iters):
        return True         # in the loop that waits for one task after the other
    common_loops = [l for l in s.loops if l in e.loops]
    return any(all(l not in x.loops for x in res) for l in common_loops)


def check(ctx):
    ctx.rule('one-lock', 'all accesses of a shared dataset by workers, and by the coordinating thread while workers run, hold one common lock', 6)
    ctx.rule('lock-shared', 'that lock is created once, outside the tasks and outside the loops that submit them', 6)
    ctx.rule('private', 'a task modifies no array, container or object that existed before it was submitted or is reachable from its arguments (thread safe progress bars excepted)', 6)
    ctx.rule('outlives', 'a dataset used by tasks is opened before the executor is entered, and closed after it has been left', 4)
    for r in all_runs(ctx):
        subs = [e for e in r.events if e.kind == 'submit' and e.name == 'executor']
        if not subs:
            continue
        E = r.E
        hist = E.events
        spans = [(s.i, s.data.get('end', s.i), s) for s in subs]
        # executor life: from the first submit to the exit of its context
        execs = {}
        for s in subs:
            x = s.data['executor']
            ends = [e.i for e in hist if e.kind == 'exit' and e.data.get('cm') is x and not e.exc]
            enters = [e.i for e in hist if e.kind == 'enter' and e.data.get('cm') is x]
            execs[x] = (min([t.i for t in subs if t.data['executor'] is x]), max(ends) if ends else len(hist), min(enters) if enters else s.i)
        acc = {}
        for e in r.events:
            if e.kind != 'call' or not e.name.startswith('.') or e.name[1:] not in ACCESS:
                continue
            recv = e.data.get('recv')
            if recv is None:
                continue
            for b, _ in leaves(recv):
                ts = E.types_of(b) or ()
                isres = b.k == 'obj' and b.a[0] == 'res' and E.st.heap[b.a[1]].meta[0] in ('rasterio.open', 'rasterio.vrt.WarpedVRT', 'rasterio.io.MemoryFile')
                if not isres and not (b.k != 'obj' and any(t.startswith('Dataset') for t in ts)):
                    continue
                acc.setdefault(b, []).append(e)
        for b, es in acc.items():
            work = [e for e in es if e.thread != 'main']
            if not work:
                continue
            own = all(b.k == 'obj' and any(i0 <= e.i <= i1 and b.a[1] > s.data['uid0'] for i0, i1, s in spans) for e in work)
            if own or (b.k == 'elem' and all(any(b in set(walk(E.freeze(x))) for x in s.data['args']) for s in subs)):
                continue
            mine = [s for i0, i1, s in spans if any(i0 <= e.i <= i1 for e in work)]
            conc = work + [e for e in es if e.thread == 'main' and any(concurrent(r, e, s) for s in mine)]
            locks = set(conc[0].locks)
            for e in conc[1:]:
                locks &= set(e.locks)
            key = f'{r.label}:{"|".join(sorted({where(e) + e.name for e in work}))}'
            ctx.ob('one-lock', key, bool(locks), 'accesses of ' + show(b, 3)[:80] + ' are not under one common lock: ' +
                   ', '.join(f'{where(e)}{e.name} holds {[show(l) for l in e.locks]}' for e in conc)[:300], where(work[0]))
            for l in locks:
                ok = l.k == 'obj' and all(l.a[1] <= s.data['uid0'] for s in subs)
                inloop = [e for e in hist if e.kind == 'call' and e.name in ('threading.Lock', 'threading.RLock') and e.data.get('result') is l and e.loops]
                ctx.ob('lock-shared', key, ok and not inloop, 'the lock is created by or for each task, so tasks do not exclude each other', where(work[0]))
            if b.k == 'obj':
                for s in subs:
                    if not any(s.i <= e.i <= s.data.get('end', s.i) for e in work):
                        continue
                    a, z, ent = execs[s.data['executor']]
                    closes = [e.i for e in hist if e.kind == 'exit' and (e.data.get('cm') is b) and e.i > s.i]
                    opened = [e.i for e in hist if e.kind == 'enter' and e.data.get('cm') is b]
                    ok = bool(opened) and min(opened) < ent and all(c > min([e.i for e in hist if e.kind == 'exit' and e.data.get('cm') is s.data['executor'] and e.i > s.i] or [10**9]) for c in closes)
                    ctx.ob('outlives', f'{key}', ok, 'the dataset can be closed while tasks that use it are still running', where(s))
        # ------------------------------------------------ private data
        for i0, i1, s in spans:
            args = [s.data['fn']] + list(s.data['args']) + [v for v in s.data['kwargs'].values() if isinstance(v, T)]
            sh = shared_bases(E, *args)
            fn = s.data['fn']
            if fn.k == 'fn':
                fv = E.funcs.get(fn.a[1])
            u0 = s.data['uid0']
            bad = []
            for e in r.events[:]:
                if not (i0 < e.i < i1) or e.kind not in ('mut', 'setattr'):
                    continue
                t = e.data.get('target')
                if t is None:
                    continue
                for b in bases(t):
                    if b.k == 'obj':
                        h = E.st.heap.get(b.a[1])
                        if h is not None and h.kind == 'res' and 'tqdm' in str(h.meta[0]):
                            continue
                        if b.a[1] <= u0 and not e.locks:
                            bad.append(e)
                    elif b.k in ('cls', 'mod') or (b.k == 'ext' and e.kind == 'setattr'):
                        bad.append(e)
                    elif b in sh and not e.locks:
                        if b.k == 'elem' and False:
                            continue
                        bad.append(e)
            ctx.ob('private', f'{r.label}:{where(s)}', not bad, '; '.join(f'{e.name} at {e.loc} changes {show(e.data["target"], 3)[:80]}, which other threads can see' for e in bad)[:400],
                   where(bad[0]) if bad else where(s))
            # assignments to enclosing / global variables from a task
            for e in r.events:
                if i0 < e.i < i1 and e.kind == 'nonlocal':
                    ctx.ob('private', f'{r.label}:{where(s)}:{e.name}', False, f'the task assigns the shared variable {e.name}', where(e))
