"""C17: reading files never executes their content (name resolution over the whole package, no engine run needed)."""
import ast
import pathlib
from .common import *

BAD_MODULES = ('pickle', '_pickle', 'cPickle', 'dill', 'cloudpickle', 'joblib', 'marshal', 'shelve', 'runpy', 'code', 'codeop', 'imp', 'ctypes', 'cffi', 'pty', 'jsonpickle', 'numexpr', 'xmlrpc',
               'jinja2', 'mako', 'pandas.eval', 'sympy', 'pydoc', 'timeit', 'antigravity', 'webbrowser', 'torch')
BAD_NAMES = {'builtins.eval': 'evaluates code', 'builtins.exec': 'executes code', 'builtins.compile': 'compiles code', 'builtins.__import__': 'imports modules',
             'importlib.import_module': 'imports modules', 'importlib.__import__': 'imports modules', 'importlib.util': 'imports modules', 'importlib.machinery': 'imports modules', 'os.system': 'starts a process',
             'os.popen': 'starts a process', 'os.startfile': 'starts a process', 'subprocess': 'starts a process', 'os.posix_spawn': 'starts a process', 'click.launch': 'starts a process',
             'pkgutil.resolve_name': 'imports modules', 'logging.config.dictConfig': 'constructs arbitrary objects', 'logging.config.fileConfig': 'evaluates code',
             'logging.config.listen': 'evaluates code', 'asyncio.create_subprocess_shell': 'starts a process', 'asyncio.create_subprocess_exec': 'starts a process',
             'inspect.getmodule': 'imports modules', 'builtins.breakpoint': 'starts a debugger', 'types.FunctionType': 'makes code', 'types.CodeType': 'makes code', 'builtins.__builtins__': 'reaches every builtin',
             'numexpr.evaluate': 'evaluates code', 'pandas.eval': 'evaluates code', 'pandas.read_pickle': 'constructs arbitrary objects', 'numpy.core.records': ''}
BAD_PREFIX = ('os.exec', 'os.spawn')
YAML_OK = {'safe_load', 'safe_load_all', 'safe_dump', 'safe_dump_all', 'dump', 'dump_all', 'YAMLError', 'MarkedYAMLError', 'SafeLoader', 'CSafeLoader', 'SafeDumper', 'CSafeDumper', 'Dumper', 'CDumper',
           'load', 'load_all', 'error', 'parser', 'scanner', 'reader', 'composer', 'constructor', 'representer', 'add_representer', 'BaseLoader', 'CBaseLoader', 'nodes', 'Node', 'ScalarNode',
           'MappingNode', 'SequenceNode', 'add_constructor', 'add_implicit_resolver', 'scan', 'parse', 'compose', 'serialize', 'emit', 'resolver', '__version__', 'compose_all'}
SAFE_LOADERS = {'yaml.SafeLoader', 'yaml.CSafeLoader', 'yaml.BaseLoader', 'yaml.CBaseLoader', 'yaml.cyaml.CSafeLoader', 'yaml.loader.SafeLoader', 'yaml.loader.BaseLoader'}
BUILTIN = {'eval', 'exec', 'compile', '__import__', 'breakpoint', '__builtins__', 'globals', 'locals', 'vars', 'getattr', 'open', 'input'}


class Scan(ast.NodeVisitor):
    """Resolves names through the import aliases and simple rebindings of a module, in every scope."""

    def __init__(self, ctx, rel, tree):
        self.ctx, self.rel, self.tree = ctx, rel, tree
        self.alias, self.stack, self.local = {}, [], set()
        mods = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                    mods.add(a.name)
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    self.alias[a.asname or a.name] = f'{n.module}.{a.name}'
                    mods.add(f'{n.module}.{a.name}')
        self.mods = mods
        for _ in range(3):
            for n in ast.walk(tree):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    q = self.q(n.value)
                    if q and n.targets[0].id not in self.alias:
                        self.alias[n.targets[0].id] = q
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.local.add(n.name)
            elif isinstance(n, ast.arg):
                self.local.add(n.arg)
        self.consts = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
                self.consts[n.targets[0].id] = n.value

    def q(self, n):
        if isinstance(n, ast.Name):
            if n.id in self.alias:
                return self.alias[n.id]
            return 'builtins.' + n.id if n.id in BUILTIN and n.id not in self.local else None
        if isinstance(n, ast.Attribute):
            b = self.q(n.value)
            return f'{b}.{n.attr}' if b else None
        return None

    def where(self, n):
        return f'{self.rel}:{getattr(n, "lineno", 0)} ({".".join(self.stack) or "module"})'

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def const(self, n):
        if isinstance(n, ast.Constant):
            return True
        if isinstance(n, (ast.List, ast.Tuple)):
            return all(self.const(x) for x in n.elts)
        return isinstance(n, ast.Name) and n.id in self.consts

    def bad(self, rule, n, msg):
        self.ctx.ob(rule, f'{self.rel}:{".".join(self.stack)}:{ast.unparse(n)[:60]}', False, msg, self.where(n))

    def ref(self, n, call=None):
        q = self.q(n)
        if not q:
            return
        if q.startswith('yaml.') or q == 'yaml':
            name = q.split('.')[1] if '.' in q else None
            ok, msg = name is None or name in YAML_OK, f'{q} builds arbitrary objects from YAML input'
            if name in ('load', 'load_all') or q in ('yaml.load', 'yaml.load_all'):
                ld = None
                if call is not None:
                    ld = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'Loader'), None)
                ok = ld is not None and self.q(ld) in SAFE_LOADERS
                msg = f'{q} is used without a safe loader'
            if name:
                self.ctx.ob('parsers', f'{self.rel}:{".".join(self.stack)}:{q}', ok, msg, self.where(n))
            return
        for m in BAD_MODULES:
            if q == m or q.startswith(m + '.'):
                self.bad('no-execution', n, f'{q} can construct arbitrary objects or run code from its input')
                return
        hit = next((b for b in BAD_NAMES if q == b or q.startswith(b + '.')), None) or next((p for p in BAD_PREFIX if q.startswith(p)), None)
        if hit:
            ok = call is not None and bool(call.args) and all(self.const(a) for a in call.args)
            if not ok:
                self.bad('no-execution', n, f'{q} {BAD_NAMES.get(hit, "starts a process")}')

    def visit_Call(self, n):
        q = self.q(n.func)
        if q == 'numpy.load':
            k = next((k.value for k in n.keywords if k.arg == 'allow_pickle'), None)
            k = k or (n.args[2] if len(n.args) > 2 else None)
            self.ctx.ob('parsers', f'{self.rel}:{".".join(self.stack)}:numpy.load', k is None or (isinstance(k, ast.Constant) and not k.value), 'numpy.load may unpickle its input', self.where(n))
        elif q == 'builtins.getattr' and len(n.args) > 1:
            b = self.q(n.args[0])
            name = n.args[1]
            pre = isinstance(name, ast.JoinedStr) and name.values and isinstance(name.values[0], ast.Constant) and name.values[0].value.strip('_')
            dyn = not self.const(name) and not pre and not (isinstance(name, ast.Attribute) and name.attr in ('value', 'name'))
            self.ctx.ob('no-lookup', f'{self.rel}:{".".join(self.stack)}:{ast.unparse(n)[:60]}', not (dyn and b and not b.startswith('builtins.')),
                        f'a name that is not constant is looked up in {b}, so an input can choose what is called', self.where(n))
        elif q and q.startswith(('json.', 'csv.', 'xml.')):
            self.ctx.ob('parsers', f'{self.rel}:{".".join(self.stack)}:{q}', True, '', self.where(n))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('loads', 'load') and not q and isinstance(n.func.value, ast.Call) and self.q(n.func.value.func) == 'builtins.__import__':
            self.bad('no-execution', n, 'dynamic import')
        self.done = getattr(self, 'done', set()) | {id(n.func)}
        self.ref(n.func, n)
        if not (isinstance(n.func, (ast.Name, ast.Attribute)) and q):
            self.visit(n.func)
        for a in n.args:
            self.visit(a)
        for k in n.keywords:
            self.visit(k.value)

    def visit_Subscript(self, n):
        v = n.value
        dyn = (isinstance(v, ast.Call) and self.q(v.func) in ('builtins.globals', 'builtins.locals') or self.q(v) in ('sys.modules',) or
               (isinstance(v, ast.Attribute) and v.attr in ('__dict__',) and self.q(v.value)) or (isinstance(v, ast.Call) and self.q(v.func) == 'builtins.vars' and v.args and self.q(v.args[0])))
        if dyn and not self.const(n.slice) and isinstance(n.ctx, ast.Load):
            self.bad('no-lookup', n, 'a name that is not constant is looked up among the names of a module')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        q = self.q(n)
        if q:
            self.ref(n)
        else:
            if n.attr in ('__globals__', '__builtins__', '__subclasses__', '__code__', 'add_multi_constructor') and isinstance(n.ctx, ast.Load):
                self.bad('no-execution', n, f'.{n.attr} reaches code through an object')
            self.visit(n.value)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.ref(n)

    def visit_ImportFrom(self, n):
        if n.module and not n.level:
            for a in n.names:
                self.imp(n, f'{n.module}.{a.name}')

    def visit_Import(self, n):
        for a in n.names:
            self.imp(n, a.name)

    def imp(self, n, q):
        bad = next((m for m in BAD_MODULES if q == m or q.startswith(m + '.')), None)
        self.ctx.ob('imports', f'{self.rel}:{q}', not bad, f'{q} can construct arbitrary objects or run code from its input', self.where(n))

    def visit_Constant(self, n):
        if isinstance(n.value, str) and n.value.upper().startswith('GDAL_VRT_ENABLE_PYTHON'):
            self.bad('no-execution', n, 'GDAL is allowed to run Python code found in image files')

    def visit_keyword(self, n):
        self.visit(n.value)


def check(ctx):
    ctx.rule('imports', 'no module that can run code or build arbitrary objects from data is imported', 20)
    ctx.rule('parsers', 'every use of a parser library is of a data-only parser (yaml with a safe loader, json, csv, xml elements, numpy without pickle)', 3)
    ctx.rule('no-execution', 'no reference to a function that evaluates code, imports modules by name or starts processes, except with constant arguments', 1)
    ctx.rule('no-lookup', 'no attribute or module is looked up by a name taken from data', 0)
    root = pathlib.Path(ctx.repo) / 'orthority'
    for p in sorted(root.rglob('*.py')):
        tree = ast.parse(p.read_text(encoding='utf-8'))
        rel = f'orthority/{p.relative_to(root)}'
        ctx.ob('no-execution', rel, True, '', rel)
        s = Scan(ctx, rel, tree)
        s.visit(tree)
        for n in ast.walk(tree):
            if isinstance(n, ast.keyword) and n.arg and n.arg.upper() == 'GDAL_VRT_ENABLE_PYTHON' and not (isinstance(n.value, ast.Constant) and str(n.value.value).upper() in ('NO', 'FALSE', 'OFF', '0')):
                s.bad('no-execution', n.value, 'GDAL is allowed to run Python code found in image files')
        ctx.funcs.update(f'{rel}:{n.name}' for n in ast.walk(tree) if isinstance(n, ast.FunctionDef))
