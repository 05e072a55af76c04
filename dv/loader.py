"""Compile /repo's current source into shadow modules the engine can execute.

What the extraction changes, and nothing else:
  * `import` statements resolve numpy/pandas/scipy/warnings/random/... to the
    dependency models in dv.shims, and dataprofiler modules to shadow modules;
  * calls to the builtins len/min/max/... go to versions that also accept
    symbolic values (identical on concrete values);
  * `for` and `while` statements get a second arm used when the iteration space
    is symbolic: invariant on entry, havoc, one arbitrary iteration, invariant
    again (dv.loops);
  * list/set/dict/generator comprehensions get a second arm used when the iterable is
    symbolic.
Docstrings, comments, annotations and type hints play no role.
"""
from __future__ import annotations

import ast
import builtins
import importlib
import os
import sys
import types

REPO = os.environ.get("DV_REPO", "/repo")

CALLS = {"len", "min", "max", "sum", "abs", "float", "int", "str", "bool", "range",
         "enumerate", "zip", "sorted", "any", "all", "list", "set", "dict", "tuple", "map",
         "isinstance", "type", "round", "reversed", "iter", "next", "frozenset", "filter", "callable", "open"}


class _Names(ast.NodeVisitor):
    """names and `name.attr` stores in a statement list (not nested scopes)"""

    def __init__(self):
        self.names = []
        self.has_yield = False

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        # the name is deleted at the end of the handler: not a loop variable
        for s in node.body:
            self.visit(s)


def assigned(stmts, extra=()):
    v = _Names()
    for e in extra:
        v.visit(e)
    for s in stmts:
        v.visit(s)
    return [n for n in v.names if not n.startswith("__dv__")]


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = []
        self.loopno = {}
        self.tmp = 0

    def t(self, base):
        self.tmp += 1
        return f"__dv_{base}{self.tmp}"

    # ---- scopes
    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        node.body = self.block(node.body)
        self.func.pop()
        # decorators/defaults are evaluated in the enclosing scope
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    def visit_ClassDef(self, node):
        self.func.append(node.name)
        node.body = self.block(node.body)
        self.func.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, node):
        # `x: T = v` -> `x = v`; a bare annotation is dropped (no effect at run time)
        if node.value is None:
            if isinstance(node.target, ast.Name) and self.func:
                return ast.Pass()
            return ast.Pass()
        return ast.copy_location(ast.Assign(targets=[self.visit(node.target)], value=self.visit(node.value)), node)

    def site(self):
        q = ".".join(self.func) or "<module>"
        k = self.loopno.get(q, 0)
        self.loopno[q] = k + 1
        return f"{self.mod}:{q}#loop{k}"

    # ---- calls
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in CALLS:
            node.func = ast.Attribute(ast.Name("__dv__", ast.Load()), node.func.id, ast.Load())
        return node

    def visit_Compare(self, node):
        """`a in b` / `not in`: membership in a concrete container of a symbolic
        item, or in a symbolic container, is decided by the engine"""
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "contains", ast.Load()),
                            [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), call)
            return call
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            call = ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "is_", ast.Load()),
                            [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.IsNot):
                return ast.UnaryOp(ast.Not(), call)
            return call
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        return node

    # ---- comprehensions
    def _comp(self, node, kind):
        if len(node.generators) != 1 or node.generators[0].is_async:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        has_named = any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node))
        self.generic_visit(node)
        if has_named:
            return node
        itn = self.t("it")
        import copy as _c
        arg = "__dv_x"

        def lam(body):
            # lambda __dv_x: [body for TARGET in (__dv_x,)][0]
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg(arg)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=ast.Subscript(
                    ast.ListComp(body, [ast.comprehension(_c.deepcopy(g.target),
                                                          ast.Tuple([ast.Name(arg, ast.Load())], ast.Load()), [], 0)]),
                    ast.Constant(0), ast.Load()))
        if kind == "dict":
            elt = ast.Tuple([_c.deepcopy(node.key), _c.deepcopy(node.value)], ast.Load())
        else:
            elt = _c.deepcopy(node.elt)
        cond = ast.BoolOp(ast.And(), [_c.deepcopy(c) for c in g.ifs]) if len(g.ifs) > 1 else (
            _c.deepcopy(g.ifs[0]) if g.ifs else ast.Constant(True))
        sym = ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "comp", ast.Load()),
                       [ast.Constant(kind), ast.Name(itn, ast.Load()), lam(elt),
                        lam(cond) if g.ifs else ast.Constant(None)], [])
        it = g.iter
        g.iter = ast.Name(itn, ast.Load())
        # (lambda it: sym if is_sym_iter(it) else native)(ITER)
        body = ast.IfExp(ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "symbolic_iter", ast.Load()),
                                  [ast.Name(itn, ast.Load())], []), sym, node)
        return ast.Call(ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(itn)], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body), [it], [])

    def visit_ListComp(self, node):
        return self._comp(node, "list") if self._infunc() else self.generic_visit(node)

    def visit_SetComp(self, node):
        return self._comp(node, "set") if self._infunc() else self.generic_visit(node)

    def visit_DictComp(self, node):
        return self._comp(node, "dict") if self._infunc() else self.generic_visit(node)

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen") if self._infunc() else self.generic_visit(node)

    def _infunc(self):
        return bool(self.func)

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    # ---- displays
    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self._infunc() and not any(isinstance(e, ast.Starred) for e in node.elts):
            return ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "mklist", ast.Load()), [node], [])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self._infunc():
            if node.keys and not any(k is None for k in node.keys) and not all(isinstance(k, ast.Constant) for k in node.keys):
                pairs = ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())
                return ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "mkpairs", ast.Load()), [pairs], [])
            return ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "mkdict", ast.Load()), [node], [])
        return node

    # ---- loops
    def _vardict(self, names):
        return ast.Dict([ast.Constant(n) for n in names], [
            ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "probe", ast.Load()),
                     [ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 ast.Name(n, ast.Load()))], []) for n in names])

    def _call(self, obj, meth, *args):
        return ast.Call(ast.Attribute(ast.Name(obj, ast.Load()), meth, ast.Load()), list(args), [])

    def _locals(self):
        return ast.Call(ast.Name("locals", ast.Load()), [], [])

    def _enter(self, L, names):
        out = [ast.Expr(self._call(L, "enter", self._vardict(names), self._locals()))]
        if names:
            out.append(ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                                  self._call(L, "havoc")))
        else:
            out.append(ast.Expr(self._call(L, "havoc")))
        return out

    def visit_For(self, node):
        if not self._infunc():
            return self.generic_visit(node)
        import copy as _c
        site = self.site()
        L = self.t("L")
        names = assigned(node.body, [node.target])
        it = self.visit(node.iter)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        body2 = _c.deepcopy(body)
        orelse2 = _c.deepcopy(orelse)
        sym = self._enter(L, names) + [
            ast.If(self._call(L, "more"),
                   [ast.For(ast.Name("__dv_once", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()),
                            [ast.Assign([_c.deepcopy(node.target)], self._call(L, "next"))] + body2,
                            [ast.Expr(self._call(L, "back", self._vardict(names), self._locals()))])],
                   orelse2 or [ast.Pass()])]
        conc = ast.For(node.target, ast.Attribute(ast.Name(L, ast.Load()), "it", ast.Load()), body, orelse)
        return [
            ast.Assign([ast.Name(L, ast.Store())],
                       ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "for_loop", ast.Load()),
                                [ast.Constant(site), it], [])),
            ast.If(ast.Attribute(ast.Name(L, ast.Load()), "sym", ast.Load()), sym, [conc])]

    def visit_While(self, node):
        if not self._infunc():
            return self.generic_visit(node)
        import copy as _c
        site = self.site()
        L = self.t("L")
        names = assigned(node.body)
        cond = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        cut = self._enter(L, names) + [
            ast.If(_c.deepcopy(cond),
                   [ast.For(ast.Name("__dv_once", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()),
                            _c.deepcopy(body),
                            [ast.Expr(self._call(L, "back", self._vardict(names), self._locals()))])],
                   _c.deepcopy(orelse) or [ast.Pass()]),
            ast.Break()]
        loop = ast.While(ast.Constant(True), [
            ast.Expr(self._call(L, "mark")),
            ast.If(ast.UnaryOp(ast.Not(), cond), (orelse or []) + [ast.Break()], []),
            ast.If(self._call(L, "grew"), cut, []),
        ] + body, [])
        return [ast.Assign([ast.Name(L, ast.Store())],
                           ast.Call(ast.Attribute(ast.Name("__dv__", ast.Load()), "while_loop", ast.Load()),
                                    [ast.Constant(site)], [])), loop]


class Shadow:
    """one set of shadow modules built from the current source"""

    SHADOWED = ("dataprofiler.profilers", "dataprofiler.data_readers", "dataprofiler.rng_utils",
                "dataprofiler.labelers.data_processing", "dataprofiler.labelers.labeler_utils", "dataprofiler.reports.utils",
                "dataprofiler.validators", "dataprofiler.plugins.decorators")
    REAL = ("dataprofiler.data_readers.avro_data", "dataprofiler.data_readers.parquet_data",
            "dataprofiler.data_readers.graph_data", "dataprofiler.data_readers.data",
            "dataprofiler.data_readers.csv_data")

    def __init__(self, dvmod, shim_modules):
        self.modules = {}
        self.dv = dvmod
        self.shims = shim_modules
        self.sources = {}

    def path_of(self, name):
        rel = name.replace(".", "/")
        p = os.path.join(REPO, rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def is_shadowed(self, name):
        if any(name == r for r in self.REAL):
            return False
        return any(name == s or name.startswith(s + ".") for s in self.SHADOWED)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.path_of(name)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        self.sources[name] = src
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__getattr__ = lambda n, _p=name: self.sub(_p, n)
        self.modules[name] = m
        tree = ast.parse(src, path)
        tree = Transformer(name.rpartition(".")[2]).visit(tree)
        ast.fix_missing_locations(tree)
        bi = dict(vars(builtins))
        bi["__import__"] = self.imp
        m.__dict__["__builtins__"] = bi
        m.__dict__["__dv__"] = self.dv
        code = compile(tree, path, "exec", dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        return m

    def sub(self, pkg, attr):
        full = f"{pkg}.{attr}"
        if full in self.modules:
            return self.modules[full]
        p, ispkg = self.path_of(full)
        if os.path.exists(p):
            if self.is_shadowed(full):
                return self.load(full)
            return importlib.import_module(full)
        raise AttributeError(attr)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = f"{pkg}.{name}" if name else pkg
            return self._get(full, fromlist)
        top = name.partition(".")[0]
        if top == "dataprofiler":
            return self._get(name, fromlist)
        if name in self.shims:
            return self.shims[name]
        if top in self.shims:
            return self.shims[top] if not fromlist else getattr_path(self.shims[top], name)
        return builtins.__import__(name, None, None, fromlist, 0)

    def _get(self, full, fromlist):
        if full == "dataprofiler":
            ns = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(ns, f, self.sub("dataprofiler", f) if os.path.exists(self.path_of(f"dataprofiler.{f}")[0])
                        else getattr(importlib.import_module("dataprofiler"), f))
            return ns
        if self.is_shadowed(full):
            return self.load(full)
        m = importlib.import_module(full)
        return m


def getattr_path(obj, dotted):
    for p in dotted.split(".")[1:]:
        obj = getattr(obj, p)
    return obj
