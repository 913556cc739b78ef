"""Source instrumentation: loads the current bup sources (and a few pure Python
stdlib modules) with operators and calls routed through sx.shim."""
import re
import ast, builtins, hashlib, importlib, importlib.abc, importlib.machinery, importlib.util
import os, sys, types
from . import core, shim

_NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.incls = []

    def _sx(self, name):
        return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())
    def _call(self, name, *args):
        return ast.Call(self._sx(name), list(args), [])

    def _annot(self, node):
        return node

    def visit_FunctionDef(self, node):
        return self._fn(node)
    def visit_AsyncFunctionDef(self, node):
        return self._fn(node)
    def _fn(self, node):
        qual = '.'.join(self.stack + [node.name])
        node.decorator_list = [d for d in node.decorator_list]
        self.stack.append(node.name)
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        body = []
        for i, st in enumerate(node.body):
            r = self.visit(st)
            if isinstance(r, list): body.extend(r)
            elif r is not None: body.append(r)
        first = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            first = 1
        enter = ast.Expr(self._call('enter', ast.Constant(self.mod + ':' + qual)))
        body.insert(first, enter)
        node.body = body
        self.stack.pop()
        return node
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.bases = [b for b in node.bases]
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node
    def visit_AnnAssign(self, node):
        if node.value is not None: node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _NOCALL:
            node.args = [self.visit(a) for a in node.args]
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        f = node.func
        if isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            return ast.Call(self._sx('callm'), [self.visit(f.value), ast.Constant(f.attr)] + args, kws)
        return ast.Call(self._sx('call'), [self.visit(f)] + args, kws)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('mod', node.left, node.right)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            return self._call('setop', node.left, node.right, ast.Constant(type(node.op).__name__))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self._call('contains' if isinstance(node.ops[0], ast.In) else 'notcontains',
                              node.left, node.comparators[0])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self._call('getitem', node.value, node.slice)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
           and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.Expr(self._call('setitem_v', self.visit(node.value), self.visit(t.value), self.visit(t.slice)))
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript) and not isinstance(node.target.slice, ast.Slice):
            t = node.target
            return ast.Expr(self._call('augitem', self.visit(t.value), self.visit(t.slice),
                                       ast.Constant(type(node.op).__name__), self.visit(node.value)))
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], self._call('mod', ast.Name(node.target.id, ast.Load()), self.visit(node.value)))
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
           and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.Expr(self._call('delitem', self.visit(t.value), self.visit(t.slice)))
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return self._call('fstr', *parts)

    def visit_Match(self, node):
        self.generic_visit(node)
        return node


class SX:
    call = staticmethod(shim.call)
    callm = staticmethod(shim.callm)
    mod = staticmethod(shim.mod)
    contains = staticmethod(shim.contains)
    notcontains = staticmethod(shim.notcontains)
    getitem = staticmethod(shim.getitem)
    setitem = staticmethod(shim.setitem)
    @staticmethod
    def setitem_v(v, x, i): shim.setitem(x, i, v)
    augitem = staticmethod(shim.augitem)
    delitem = staticmethod(shim.delitem)
    fstr = staticmethod(shim.fstr)
    @staticmethod
    def setop(a, b, op):
        if type(a) is int and type(b) is int:
            if op == 'Sub': return a - b
            if op == 'BitAnd': return a & b
            return a | b
        return shim.setop(a, b, op)
    @staticmethod
    def enter(name):
        if core.cur is not None: core.cur.funcs.add(name)


def compile_source(src, path, modname):
    tree = ast.parse(src, path)
    tree = T(modname).visit(tree)
    # the __sx__ name must exist before anything else runs; injected into globals
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, instrument): self.path, self.instrument = path, instrument
    def create_module(self, spec): return None
    def exec_module(self, module):
        with open(self.path, 'rb') as f: src = f.read()
        if self.instrument:
            module.__dict__['__sx__'] = SX
            code = compile_source(src, self.path, module.__name__)
        else:
            code = compile(src, self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Finds bup.* in lib (instrumented or plain); `overrides` maps module name
    to a ready-made module."""
    def __init__(self, lib, helpers_so, instrument, overrides):
        self.lib, self.so, self.instrument, self.overrides = lib, helpers_so, instrument, overrides
    def find_spec(self, name, path=None, target=None):
        if re.match(r'c\d\d_\w+$', name):      # one check using another's parts
            p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', name + '.py')
            return importlib.machinery.ModuleSpec(name, Loader(p, self.instrument), origin=p)
        if name != 'bup' and not name.startswith('bup.'): return None
        if name in self.overrides:
            mod = self.overrides[name]
            class L(importlib.abc.Loader):
                def create_module(self, spec): return mod
                def exec_module(self, module): pass
            return importlib.machinery.ModuleSpec(name, L())
        if name == 'bup._helpers':
            return importlib.util.spec_from_file_location(
                name, self.so, loader=importlib.machinery.ExtensionFileLoader(name, self.so))
        p = os.path.join(self.lib, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(p + '/__init__.py'):
            spec = importlib.machinery.ModuleSpec(name, Loader(p + '/__init__.py', self.instrument), is_package=True)
            spec.submodule_search_locations = [p]
            spec.origin = p + '/__init__.py'
            return spec
        if os.path.exists(p + '.py'):
            spec = importlib.machinery.ModuleSpec(name, Loader(p + '.py', self.instrument))
            spec.origin = p + '.py'
            spec.has_location = True
            return spec
        return None
