"""Imports packages from source through the AST rewriter."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from . import rt

SKIP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}

def _name(n):
    return ast.Name(id=n, ctx=ast.Load())

def _no_lambda(node):
    """Expressions that may not be moved into a lambda."""
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)): return True
        if isinstance(n, ast.Name) and n.id in SKIP: return True
    return False

class Rewriter(ast.NodeTransformer):
    depth = 0
    def visit_BoolOp(self, node):
        safe = (ast.Compare, ast.Constant)
        plain = all(isinstance(v, safe) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) for v in node.values[:-1])
        keep = self.depth == 0 or plain or any(_no_lambda(v) for v in node.values[1:])
        self.generic_visit(node)
        if keep: return node
        f = "__vp_or__" if isinstance(node.op, ast.Or) else "__vp_and__"
        r = node.values[-1]
        for v in reversed(node.values[:-1]):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=r)
            r = ast.Call(func=_name(f), args=[v, lam], keywords=[])
        return ast.copy_location(r, node)
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP:
            return node
        return ast.copy_location(ast.Call(func=_name("__vp_call__"), args=[node.func] + node.args, keywords=node.keywords), node)
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.copy_location(ast.Call(func=_name("__vp_in__"), args=[node.left, node.comparators[0]], keywords=[]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.Call(func=_name("__vp_notin__"), args=[node.left, node.comparators[0]], keywords=[]), node)
        return node
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(func=_name("__vp_not__"), args=[node.operand], keywords=[]), node)
        return node
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice) or isinstance(node.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in node.slice.elts):
            return node
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=_name("__vp_getitem__"), args=[node.value, node.slice], keywords=[]), node)
        v = node.value
        while isinstance(v, ast.Attribute): v = v.value
        if isinstance(v, ast.Name):
            import copy
            val = copy.deepcopy(node.value)
            for n in ast.walk(val):
                if hasattr(n, "ctx"): n.ctx = ast.Load()
            node.slice = ast.Call(func=_name("__vp_key__"), args=[val, node.slice], keywords=[])
        elif self.depth and isinstance(node.ctx, ast.Store):
            # evaluate the container once
            node.value = ast.NamedExpr(target=ast.Name(id="__vp_c", ctx=ast.Store()), value=node.value)
            node.slice = ast.Call(func=_name("__vp_key__"), args=[_name("__vp_c"), node.slice], keywords=[])
        return node
    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name("__vp_mkset__"), args=[ast.ListComp(elt=node.elt, generators=node.generators)], keywords=[]), node)
    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name("__vp_mkdict__"), args=[ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)], keywords=[]), node)
    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts): return node
        return ast.copy_location(ast.Call(func=_name("__vp_mkset__"), args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)
    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant(value="")
                args.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_name("__vp_fstr__"), args=args, keywords=[]), node)
    def _loop(self, node):
        self.generic_visit(node)
        if isinstance(node, ast.While): node.test = self._truth(node.test)
        t = ast.Expr(ast.Call(func=_name("__vp_tick__"), args=[], keywords=[]))
        node.body.insert(0, ast.copy_location(t, node.body[0]))
        return node
    visit_While = visit_For = visit_AsyncFor = _loop
    def _truth(self, test):
        if isinstance(test, (ast.Compare, ast.Constant)): return test
        return ast.copy_location(ast.Call(func=_name("__vp_truth__"), args=[test], keywords=[]), test)
    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self._truth(node.test)
        return node
    visit_IfExp = visit_If
    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.ifs = [self._truth(t) for t in node.ifs]
        return node
    def visit_Raise(self, node):
        # error messages are not part of any property: formatting is cut
        e = node.exc
        if isinstance(e, ast.Call):
            for i, a in enumerate(e.args):
                if isinstance(a, ast.JoinedStr) or isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod) \
                        or isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "format":
                    e.args[i] = ast.copy_location(ast.Constant(value="<message>"), a)
        self.generic_visit(node)
        return node
    def visit_match_case(self, node):
        node.body = [self.visit(b) for b in node.body]
        if node.guard is not None: node.guard = self.visit(node.guard)
        return node
    def visit_AnnAssign(self, node):
        if node.value is not None: node.value = self.visit(node.value)
        return node
    def visit_FunctionDef(self, node):
        # leave annotations alone
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        d, self.depth = self.depth, self.depth + 1
        node.body = [self.visit(b) for b in node.body]
        self.depth = d
        return node
    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

import types as _types
def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)

PATCH = {}      # module name -> function(module) run after loading

class Loader(importlib.abc.Loader):
    def __init__(self, path): self.path = path
    def create_module(self, spec): return None
    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        big = module.__name__.endswith("unicharclass")
        if big:
            code = compile(src, self.path, "exec", dont_inherit=True)
        else:
            code = rewrite(src, self.path)
        LOADED.append(self.path)
        module.__dict__.update(rt.ENV)
        exec(code, module.__dict__)
        p = PATCH.get(module.__name__)
        if p: p(module)

LOADED = []

class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots): self.roots = roots     # package name -> directory containing it
    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        root = self.roots.get(top)
        if root is None: return None
        base = os.path.join(root, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(name, f, loader=Loader(f), submodule_search_locations=[base])
            return spec
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f))
        return None

def install(repo="/repo", verif=None):
    verif = verif or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.meta_path.insert(0, Finder({"parce": repo, "harness": verif}))
