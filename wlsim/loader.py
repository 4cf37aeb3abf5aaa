"""Loads the code under test from /repo's working tree into simulated processes.

The source of every weatherlink module is parsed and, before compilation, a call to the kernel's preemption
point is inserted before every statement of every function and around every ``self`` attribute load.  That
changes nothing but the places where the simulator may switch task, fire an event or crash the process.
Each simulated process gets freshly executed modules (module globals are volatile state of the process).
"""
import ast
import builtins
import os
import sys
import types

from . import simthreading
from .kernel import HarnessError

REPO = os.environ.get('WLSIM_REPO', '/repo')

_CODE = {}


class _Instrument(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.n = 0

    def _body(self, stmts):
        out = []
        for s in stmts:
            out.append(_call_stmt(s))
            out.append(s)
            self.n += 1
        return out

    def _fn(self, node):
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        node.body = self._body(node.body)
        self.depth -= 1
        return node

    visit_FunctionDef = _fn

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node

    def _block(self, node):
        self.generic_visit(node)
        if self.depth:
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(node, f, None)
                if isinstance(v, list) and v:
                    if f == 'orelse' and isinstance(node, ast.If) and len(v) == 1 and isinstance(v[0], ast.If):
                        continue
                    setattr(node, f, self._body(v))
        return node

    visit_If = visit_For = visit_While = visit_With = visit_Try = visit_ExceptHandler = _block

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) \
                and node.value.id == 'self':
            self.n += 1
            node.value = ast.copy_location(
                ast.Call(func=ast.Name(id='__sim_y__', ctx=ast.Load()), args=[node.value], keywords=[]), node)
        return node


def _call_stmt(at):
    return ast.copy_location(
        ast.Expr(value=ast.Call(func=ast.Name(id='__sim_y__', ctx=ast.Load()), args=[], keywords=[])), at)


def _compile_all():
    """name -> (code, is_package, path)"""
    if _CODE:
        return _CODE
    root = os.path.join(REPO, 'weatherlink')
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(base, f)
            rel = os.path.relpath(path, REPO)[:-3].replace(os.sep, '.')
            pkg = rel.endswith('.__init__')
            if pkg:
                rel = rel[:-len('.__init__')]
            with open(path, 'rb') as h:
                tree = ast.parse(h.read(), path)
            inst = _Instrument()
            tree = inst.visit(tree)
            ast.fix_missing_locations(tree)
            _CODE[rel] = (compile(tree, path, 'exec', dont_inherit=True), pkg, path)
    return _CODE


_REAL_IMPORT = builtins.__import__


def _sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    # PyPy ignores a module-level __builtins__, so the hook is global and keyed on a marker in the importer
    if globals is not None:
        mods = globals.get('__sim_mods__')
        if mods is not None:
            return mods._import(name, globals, locals, fromlist, level)
    return _REAL_IMPORT(name, globals, locals, fromlist, level)


def _install_import():
    if builtins.__import__ is not _sim_import:
        builtins.__import__ = _sim_import


class _QueueImports(object):
    def __init__(self, mods):
        self.mods = mods

    def _import(self, name, globals, locals, fromlist, level):
        if name == 'threading':
            return self.mods.facades['threading']
        if name == '_queue':
            raise ImportError(name)
        return _REAL_IMPORT(name, globals, locals, fromlist, level)


class Modules(object):
    """The weatherlink modules of one simulated process."""

    def __init__(self, proc, opener=None, os_facade=()):
        self.proc = proc
        self.k = proc.kernel
        self.mods = {}
        self.facades = {'threading': simthreading.make(proc)}
        g = {'__sim_y__': self.k.y, '__sim_mods__': self, 'print': self._print}
        if opener is not None:
            import io
            g['open'] = opener
            fio = types.ModuleType('io')
            fio.__dict__.update(vars(io))
            fio.open = opener
            self.facades['io'] = fio
            self.facades.update(os_facade)
        self.injected = g
        _install_import()
        self.printed = 0

    def _facade_queue(self):
        import queue
        with open(queue.__file__) as h:
            src = h.read()
        m = types.ModuleType('queue')
        q = _QueueImports(self)
        m.__dict__['__sim_mods__'] = q
        exec(compile(src, queue.__file__, 'exec'), m.__dict__)
        return m

    def _print(self, *a, **kw):
        self.printed += 1

    def _load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        code = _compile_all()
        if name not in code:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        c, pkg, path = code[name]
        if '.' in name:
            parent = self._load(name.rsplit('.', 1)[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__.update(self.injected)
        self.mods[name] = m
        try:
            exec(c, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if '.' in name:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            name = base + '.' + name if name else base
        top = name.split('.')[0]
        if top == 'weatherlink':
            m = self._load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and (name + '.' + f) in _compile_all():
                        self._load(name + '.' + f)
                return m
            return self._load(top)
        if name == 'queue' and name not in self.facades:
            self.facades[name] = self._facade_queue()
        fac = self.facades.get(name)
        if fac is not None:
            if name == 'os.path' and not fromlist:
                return self.facades['os']
            return fac
        return _REAL_IMPORT(name, globals, locals, fromlist, 0)

    def get(self, name):
        return self._load(name)


def modules_for(proc, opener=None, os_facade=()):
    if proc.modules is None:
        proc.modules = Modules(proc, opener, os_facade)
    return proc.modules
