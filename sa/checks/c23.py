"""C23: malformed parameter files are refused with parameter errors (abstract interpretation of the readers on malformed contents)."""
import multiprocessing
import os

from .. import scen
from ..scen import Q, S
from ..terms import *
from ..lib import syms
from .common import *

PARAM = 'orthority.errors.ParamError'
# exceptions that an unsuitable content leads to in Python when it is not handled; '?' and operating system errors concern the file, not its content
CONTENT = {'builtins.' + n for n in 'TypeError KeyError ValueError AttributeError IndexError LookupError UnicodeDecodeError StopIteration UnboundLocalError ArithmeticError AssertionError Exception'.split()} | \
    {'csv.Error', 'json.JSONDecodeError', 'yaml.YAMLError'}
NUMS = lambda n: [1.5] * n


def rpc():
    d = {k: 1.5 for k in 'height_off height_scale lat_off lat_scale line_off line_scale long_off long_scale samp_off samp_scale'.split()}
    d.update({k: NUMS(20) for k in 'line_num_coeff line_den_coeff samp_num_coeff samp_den_coeff'.split()})
    return d


def oty_int():
    return {'cam': {'type': 'brown', 'im_size': [640, 480], 'focal_len': 1.5, 'sensor_size': [1.5, 2.5], 'k1': .5}, 'cam2': {'type': 'pinhole', 'im_size': [640, 480], 'focal_len': [1.5, 2.5]}}


def osfm_int():
    return {'v2 cam': {'projection_type': 'brown', 'width': 640, 'height': 480, 'focal_x': 1.5, 'focal_y': 2.5, 'c_x': .5, 'k1': .5}}


def osfm():
    return [{'cameras': osfm_int(), 'shots': {n: {'rotation': NUMS(3), 'translation': NUMS(3), 'camera': 'v2 cam'} for n in ('a.tif', 'b.tif')}, 'reference_lla': {'latitude': -33.5, 'longitude': 24.5, 'altitude': 1.5}}]


def oty_rpc():
    return {n: {'im_size': [640, 480], 'rpc': rpc()} for n in ('a.tif', 'b.tif')}


def gcps():
    f = {'type': 'Feature', 'properties': {'ji': [1, 2], 'filename': 'a.tif', 'id': 'x', 'info': None}, 'geometry': {'type': 'Point', 'coordinates': NUMS(3)}}
    return {'type': 'FeatureCollection', 'features': [f, {**f, 'properties': {**f['properties'], 'id': 'y'}}]}


def oty_ext():
    return {'type': 'FeatureCollection', 'world_crs': 'EPSG:32735',
            'features': [{'type': 'Feature', 'properties': {'filename': n, 'camera': 'cam', 'xyz': NUMS(3), 'opk': NUMS(3)}, 'geometry': {'type': 'Point', 'coordinates': NUMS(3)}}
                         for n in ('a.tif', 'b.tif')]}


# name: (entry point, parser, valid content, fields that may be missing, fields of any kind)
FORMATS = {
    'Orthority interior parameters': ('read_oty_int_param', 'yaml.safe_load', oty_int, {'sensor_size', 'k1'}, {'k1', 'focal_len'}),
    'OpenSfM cameras': ('read_osfm_int_param', 'json.load', osfm_int, {'c_x', 'k1'}, {'c_x', 'k1', 'focal_x', 'focal_y', 'width', 'height'}),
    'OpenSfM reconstruction': ('OsfmReader', 'json.load', osfm, {'c_x', 'k1'}, {'c_x', 'k1', 'focal_x', 'focal_y', 'width', 'height'}),
    'Orthority RPC parameters': ('read_oty_rpc_param', 'yaml.safe_load', oty_rpc, set(), set()),
    'Orthority GCPs': ('read_oty_gcps', 'json.load', gcps, set(), {'id', 'info'}),
    'Orthority exterior parameters': ('OtyReader', 'json.load', oty_ext, set(), {'camera'}),
}
FREE = {'cam', 'cam2', 'v2 cam', 'a.tif', 'b.tif'}      # names of cameras and images: not fields


def term(E, v):
    if isinstance(v, dict):
        return E.alloc('dict', [(const(k), term(E, x)) for k, x in v.items()])
    if isinstance(v, list):
        return E.alloc('list', [term(E, x) for x in v])
    return const(v)


def edits(v, opt, anyk, path=()):
    """(description, function that makes the malformed content) for each place in a content."""
    last = path[-1] if path else None
    if last in anyk and isinstance(v, (list, dict)):
        return
    kind = 'root' if not path else 'field'
    name = '/'.join(str(p) for p in path) or 'the whole file'
    if last not in anyk:
        subs = []
        if isinstance(v, dict):
            subs = [None, 'text', 7.5, ['text']]
        elif isinstance(v, list):
            subs = [None, 7.5] + ([{'x': 1}] if last not in ('im_size', 'sensor_size') else [])
            if path:
                subs += [v[:-1]] if len(v) > 1 and not isinstance(v[0], dict) and last not in ('im_size', 'sensor_size', 'coordinates') else []
            if path and last not in ('im_size', 'sensor_size', 'coordinates', 'features'):
                subs += [v + v[:1], [], v[:-1] + ['text']]
        elif isinstance(v, (int, float)):
            subs = [None, 'text', [7.5]]
        elif last in ('type', 'projection_type'):
            subs = ['unknown', None, 7.5]
        elif last in ('filename', 'world_crs'):
            subs = [None, 7.5]
        for x in subs:
            yield f'{name} is {x!r}'[:90], path, x
    if isinstance(v, dict):
        for k in v:
            if k not in FREE and k not in opt:
                yield f'{name} has no {k}', path + (k,), Drop
            yield from edits(v[k], opt, anyk, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v[:1] if not isinstance(v[0], dict) else v):
            if not (isinstance(x, (int, float)) and last in ('im_size', 'sensor_size')):
                yield from edits(x, opt, anyk, path + (i,))


class Drop:
    pass


def put(v, path, x):
    if not path:
        return x
    k = path[0]
    if isinstance(v, dict):
        if x is Drop and len(path) == 1:
            return {a: b for a, b in v.items() if a != k}
        return {a: put(b, path[1:], x) if a == k else b for a, b in v.items()}
    return [put(b, path[1:], x) if i == k else b for i, b in enumerate(v)]


def run(repo, entry, parser, content):
    E = scen.new(repo)
    if content is not Drop:
        E.max_rec = 12      # contents are finite and known
    E.ext_values[parser] = (lambda E, a, kw, n: term(E, content)) if content is not Drop else None
    if content is Drop:
        del E.ext_values[parser]
    kw = dict(crs=S('crs1')) if entry == 'OsfmReader' else {}
    v, esc, ev = E.run(E.modvar(Q + 'param_io', entry), [S('pfile')], kw)
    r = scen.Run(E, entry, v, esc, ev)
    if v is not None and entry in ('OsfmReader', 'OtyReader'):
        m, esc2, ev2 = E.run(E.getattr_(v, 'read_ext_param'), [])
        r = scen.Run(E, entry, m, esc + esc2, ev + ev2)
    return r


def outcome(case):
    """How the code reads one malformed content (in a process of its own: terms of different cases have nothing in common)."""
    repo, entry, parser, content, known, d = case
    r = run(repo, entry, parser, content)
    bad = [x for x in r.escapes if str(x.cls) in CONTENT and key(x) not in known]
    ok = r.value is None and not bad and any(is_param(r.E, x) for x in r.escapes)
    why = '' if ok else 'parameters are returned' if r.value is not None else f'{str(bad[0].cls).split(".")[-1]} is raised' if bad else 'no parameter error is raised'
    return d, ok, why, str(bad[0].loc) if bad else ''


def key(x):
    return str(x.cls), str(x.loc)


def message(E, x):
    v = x.val
    if isinstance(v, T) and v.k == 'obj' and x.st is not None and v.a[1] in x.st.heap:
        d = x.st.heap[v.a[1]].data
        if isinstance(d, dict):
            return d.get('args', v)
    return v


def is_param(E, x):
    c = str(x.cls)
    if c == PARAM:
        return True
    return c in E.classes and PARAM in E.mro_names(E.classes[c])


def check(ctx):
    ctx.rule('accepted', 'a valid content is read', 4)
    ctx.rule('refused', 'a malformed content never yields parameters, and raises parameter errors only', 40)
    ctx.rule('parser', 'errors of the parser and of text decoding become parameter errors that name the file', 4)
    ctx.rule('csv', 'errors in decoding, parsing and converting CSV files are parameter errors', 2)
    for name, (entry, parser, valid, opt, anyk) in FORMATS.items():
        v = valid()
        base = run(ctx.repo, entry, parser, v)
        ctx.use(base)
        ctx.ob('accepted', name, base.value is not None, 'a valid file is not read')
        known = {key(x) for x in base.escapes}
        cases = [(d, put(v, p, x)) for d, p, x in edits(v, opt, anyk)]
        if 'interior' in name or 'cameras' in name:
            cam = next(iter(v))
            cases.append(('a camera has an unknown field', {**v, cam: {**v[cam], 'unknown': 1.5}}))
        if 'interior' in name:
            cases.append(('a pinhole camera has a distortion coefficient', {**v, 'cam2': {**v['cam2'], 'k1': 1.5}}))
            cases.append(('there are no cameras', {}))
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1), maxtasksperchild=8) as pool:
            for d, ok, why, where in pool.map(outcome, [(ctx.repo, entry, parser, c, known, d) for d, c in cases], 1):
                ctx.ob('refused', f'{name}: {d}', ok, why, where)
        # parser errors
        r = run(ctx.repo, entry, parser, Drop)
        calls = [e for e in r.events if e.kind == 'call' and e.name == parser]
        bad = [x for x in r.escapes if str(x.cls) in ('json.JSONDecodeError', 'yaml.YAMLError', 'builtins.UnicodeDecodeError')]
        ctx.ob('parser', f'{name}: errors of {parser}', bool(calls) and not bad, '' if calls and not bad else
               f'{str(bad[0].cls).split(".")[-1]} is raised' if bad else f'{parser} is not called', str(bad[0].loc) if bad else '')
        E = scen.new(ctx.repo)

        def fail(E, a, kw, n, parser=parser):
            E.raise_('yaml.YAMLError' if 'yaml' in parser else 'json.JSONDecodeError', const('syntax error'), n)
        E.ext_values[parser] = fail
        v_, esc, ev = E.run(E.modvar(Q + 'param_io', entry), [S('pfile')], dict(crs=S('crs1')) if entry == 'OsfmReader' else {})
        ps = [x for x in esc if is_param(E, x)]
        named = [x for x in ps if 'pfile' in {str(s) for s in names_of(message(E, x))}]
        ok = v_ is None and ps and len(named) == len(ps)
        ctx.ob('parser', f'{name}: the parameter error for text that {parser} cannot parse', bool(ok), '' if ok else
               'there is none' if not ps else 'the file is not named' if v_ is None else 'parameters are returned', str(ps[0].loc) if ps else '')
    csv(ctx)


def names_of(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.k == 'sym':
                out.add(x.a[0])
            todo.extend(x.a)
    return out


def csv(ctx):
    first = True
    for r in scen.frame_reader(ctx.repo, 'CsvReader'):
        ctx.use(r)
        cl = {'csv.Error', 'builtins.UnicodeDecodeError'} if first else {'csv.Error', 'builtins.UnicodeDecodeError', 'builtins.ValueError', 'builtins.TypeError'}
        bad = [x for x in r.escapes if str(x.cls) in cl]
        ctx.ob('csv', r.label, r.value is not None and not bad, '' if r.value is not None and not bad else f'{str(bad[0].cls).split(".")[-1]} is raised' if bad else 'nothing is read', str(bad[0].loc) if bad else '')
        first = False
    rows = {'no numbers missing': {}, 'a short row': {'z': None, 'omega': None, 'phi': None, 'kappa': None}, 'text for a number': {'kappa': 'text'}}
    for name, change in rows.items():
        E = scen.new(ctx.repo)
        row = {**dict(filename='a.tif', x='1.5', y='1.5', z='1.5', omega='1.5', phi='1.5', kappa='1.5'), **change}
        E.ext_values['csv.DictReader'] = lambda E, a, kw, n, row=row: term(E, [row])
        v, esc, ev = E.run(E.modvar(Q + 'param_io', 'CsvReader'), [S('pfile')], dict(fieldnames=tup(*[const(k) for k in row]), crs=S('crs1')))
        m, esc2 = None, []
        if v is not None:
            m, esc2, _ = E.run(E.getattr_(v, 'read_ext_param'), [])
        bad = [x for x in esc2 if str(x.cls) in CONTENT]
        good = m is not None if not change else m is None and any(is_param(E, x) for x in esc2)
        ctx.ob('csv', f'CSV file: {name}', v is not None and good and not bad, f'{str(bad[0].cls).split(".")[-1]} is raised' if bad else 'read' if m is not None else 'not read', str(bad[0].loc) if bad else '')
