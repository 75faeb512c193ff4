"""Imports the package under test from its current source, with symbolic stand-ins for the libraries it uses.

The source is parsed from /repo on every run.  The only syntactic change is that calls of the type constructors
float()/int()/bool()/type() and numpy scalar types go through helpers that accept symbolic values; everything else is
executed by the ordinary interpreter.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

from . import shims, sym

PKG = 'safe_autonomy_dynamics'
REPO = os.environ.get('VERIF_REPO', '/repo')

CALLS = {'float': '__sym_float__', 'int': '__sym_int__', 'bool': '__sym_bool__', 'type': '__sym_type__'}
NPCASTS = {
    'float64', 'float32', 'float16', 'double', 'single', 'half', 'int32', 'int64', 'intp', 'bool_', 'float_', 'longdouble', 'int_', 'float128'
}


class _Tr(ast.NodeTransformer):

    def __init__(self, skip):
        self.skip = skip

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALLS and f.id not in self.skip:
            node.func = ast.copy_location(ast.Name(CALLS[f.id], ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in NPCASTS:
            node.func = ast.copy_location(ast.Name('__sym_npcast__', ast.Load()), f)
            node.args = [f] + node.args
        return node


_code = {}


def compile_source(path):
    if path not in _code:
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        stored = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        stored |= {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}
        stored |= {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        tree = ast.fix_missing_locations(_Tr(stored).visit(tree))
        _code[path] = compile(tree, path, 'exec', dont_inherit=True)
    return _code[path]


class World:
    """one fresh instance of the package under test"""

    def __init__(self, hooks=None):
        self.hooks = hooks or {}
        self.sent = shims.Sentinels()
        np_ = shims.make_numpy(False)
        jnp = shims.make_numpy(True)
        self.shims = {'numpy': np_, 'math': shims.make_math(), 'pydantic': shims.make_pydantic(self.sent)}
        self.shims.update(shims.make_scipy())
        self.shims.update(shims.make_jax(jnp))
        self.np, self.jnp = np_, jnp
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['isinstance'] = shims.sym_isinstance
        b['min'] = shims._minmax(min, lambda a, b: a < b)
        b['max'] = shims._minmax(max, lambda a, b: a > b)
        b['round'] = shims.sym_round
        b['__sym_float__'] = shims.sym_float
        b['__sym_int__'] = shims.sym_int
        b['__sym_bool__'] = shims.sym_bool
        b['__sym_type__'] = shims.sym_type
        b['__sym_npcast__'] = shims.sym_npcast
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        root = name.split('.')[0]
        if level == 0 and root in self.shims:
            if not fromlist:
                return self.shims[root]
            if name in self.shims:
                return self.shims[name]
            m = self.shims[root]
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)


class Loader(importlib.abc.Loader):

    def __init__(self, world, path):
        self.world, self.path = world, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = self.world.builtins
        exec(compile_source(self.path), module.__dict__)
        hook = self.world.hooks.get(module.__name__)
        if hook:
            for k, v in hook(module).items():
                setattr(module, k, v)


class Finder(importlib.abc.MetaPathFinder):

    world = None

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.') or self.world is None:
            return None
        rel = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(rel):
            p = os.path.join(rel, '__init__.py')
            spec = importlib.machinery.ModuleSpec(fullname, Loader(self.world, p) if os.path.exists(p) else None, origin=p, is_package=True)
            spec.submodule_search_locations = [rel]
            spec.has_location = True
            return spec
        p = rel + '.py'
        if not os.path.exists(p):
            return None
        spec = importlib.machinery.ModuleSpec(fullname, Loader(self.world, p), origin=p)
        spec.has_location = True
        return spec


FINDER = Finder()


def purge():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
        del sys.modules[k]


def install(world):
    purge()
    FINDER.world = world
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)


def uninstall():
    purge()
    FINDER.world = None


# ------------------------------------------------------------------ which functions were executed symbolically
TOOL = 4
SEEN = set()


def _on_start(code, off):
    f = code.co_filename
    if f.startswith(os.path.join(REPO, PKG)) and not code.co_name.startswith('<'):
        SEEN.add(os.path.relpath(f, REPO) + ':' + code.co_qualname)
    return sys.monitoring.DISABLE


def monitor():
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'verif')
    m.register_callback(TOOL, m.events.PY_START, _on_start)
    m.set_events(TOOL, m.events.PY_START)
