"""AST instrumentation of the program under test, applied at import time.

Regenerated from the working tree on every run; nothing is cached.
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.util
import os
import sys

from . import rt

SOURCES = {}  # module -> sha256 of the source that was encoded

_OPS = {
    ast.Eq: "==",
    ast.NotEq: "!=",
    ast.Lt: "<",
    ast.LtE: "<=",
    ast.Gt: ">",
    ast.GtE: ">=",
    ast.In: "in",
    ast.NotIn: "not in",
    ast.Is: "is",
    ast.IsNot: "is not",
}


def _rt(name):
    return ast.Attribute(
        value=ast.Name(id="__symrt__", ctx=ast.Load()), attr=name, ctx=ast.Load()
    )


def _call(name, *args):
    return ast.Call(func=_rt(name), args=list(args), keywords=[])


class Transformer(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.cls = []
        self.tmp = 0

    # -- structure ---------------------------------------------------------
    def _body_prefix(self, body, stmt):
        i = 0
        if (
            body
            and isinstance(body[0], ast.Expr)
            and isinstance(body[0].value, ast.Constant)
            and isinstance(body[0].value.value, str)
        ):
            i = 1
        return body[:i] + [stmt] + body[i:]

    def _function(self, node):
        node.decorator_list = [
            self.visit(d)
            if isinstance(d, ast.Name)
            and d.id in ("classmethod", "staticmethod", "property")
            else _call("deco", self.visit(d))
            for d in node.decorator_list
        ]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [
            self.visit(d) if d is not None else None
            for d in node.args.kw_defaults
        ]
        self.stack.append(node.name)
        name = self.module + ":" + ".".join(self.stack)
        node.body = [self.visit(s) for s in node.body]
        node.body = self._flat(node.body)
        self.stack.pop()
        stmt = ast.Expr(_call("fn", ast.Constant(name)))
        node.body = self._body_prefix(node.body, stmt)
        return node

    def _flat(self, body):
        out = []
        for s in body:
            if s is None:
                continue
            if isinstance(s, list):
                out.extend(s)
            else:
                out.append(s)
        return out

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.cls.append(node.name)
        self.generic_visit(node)
        self.cls.pop()
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    # -- loops -------------------------------------------------------------
    def visit_For(self, node):
        self.generic_visit(node)
        node.body = [ast.Expr(_call("tick"))] + node.body
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body = [ast.Expr(_call("tick"))] + node.body
        return node

    # -- expressions -------------------------------------------------------
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return _call(
                "cmp",
                ast.Constant(_OPS[type(node.ops[0])]),
                node.left,
                node.comparators[0],
            )
        # chained: evaluate operands once through walrus temporaries
        parts = []
        left = node.left
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1 and not isinstance(
                right, (ast.Name, ast.Constant)
            ):
                name = "__symtmp%d" % self.tmp
                self.tmp += 1
                if self.cls and len(self.cls) == len(self.stack):
                    raise NotImplementedError("chained compare in class body")
                bind = ast.NamedExpr(
                    target=ast.Name(id=name, ctx=ast.Store()), value=right
                )
                nxt = ast.Name(id=name, ctx=ast.Load())
            else:
                bind, nxt = right, right
            parts.append(
                _call("cmp", ast.Constant(_OPS[type(op)]), left, bind)
            )
            left = nxt
        return ast.BoolOp(op=ast.And(), values=parts)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in (
            "super",
            "locals",
            "globals",
            "vars",
            "dir",
        ):
            return self.generic_visit(node)
        args = [self.visit(a) for a in node.args]
        kws = [
            ast.keyword(arg=k.arg, value=self.visit(k.value))
            for k in node.keywords
        ]
        tup = ast.Tuple(elts=args, ctx=ast.Load())
        if kws:
            kd = ast.Call(
                func=_rt("kw"), args=[], keywords=kws
            )
        else:
            kd = ast.Dict(keys=[], values=[])
        if isinstance(f, ast.Attribute):
            if (
                isinstance(f.value, ast.Call)
                and isinstance(f.value.func, ast.Name)
                and f.value.func.id == "super"
            ):
                return _call("call", f, tup, kd)
            attr = f.attr
            if attr.startswith("__") and not attr.endswith("__") and self.cls:
                attr = "_" + self.cls[-1].lstrip("_") + attr
            return _call(
                "callm", self.visit(f.value), ast.Constant(attr), tup, kd
            )
        return _call("call", self.visit(f), tup, kd)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            key = _rt("STAR") if k is None else k
            pairs.append(ast.Tuple(elts=[key, v], ctx=ast.Load()))
        return _call("mkdict", ast.List(elts=pairs, ctx=ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call("mkset", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call(
            "mkset", ast.ListComp(elt=node.elt, generators=node.generators)
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call(
            "mkdict",
            ast.ListComp(
                elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                generators=node.generators,
            ),
        )

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            idx = node.slice
            if isinstance(idx, ast.Slice):
                none = ast.Constant(None)
                idx = ast.Call(
                    func=_rt("slice"),
                    args=[idx.lower or none, idx.upper or none, idx.step or none],
                    keywords=[],
                )
            return _call("getitem", node.value, idx)
        if not isinstance(node.slice, ast.Slice) and isinstance(
            node.value, (ast.Name, ast.Attribute)
        ):
            import copy

            base = copy.deepcopy(node.value)
            for n in ast.walk(base):
                if hasattr(n, "ctx"):
                    n.ctx = ast.Load()
            node.slice = _call("prep_index", base, node.slice)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call("binop_mod", node.left, node.right)
        return node

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion == ord("r"):
            node.conversion = -1
            node.value = _call("r_repr", node.value)
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        node.subject = _call("match_subject", node.subject)
        return node

    def visit_MatchValue(self, node):
        return node


def kw(**k):
    return k


rt.kw = kw
rt.slice = slice


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        SOURCES[self.name] = hashlib.sha256(src.encode()).hexdigest()
        tree = ast.parse(src, self.path)
        tree = Transformer(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__symrt__"] = rt
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root, self.package = root, package

    def find_spec(self, name, path, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        base = os.path.join(self.root, *name.split("."))
        for p, is_pkg in (
            (os.path.join(base, "__init__.py"), True),
            (base + ".py", False),
        ):
            if os.path.exists(p):
                spec = importlib.util.spec_from_file_location(
                    name,
                    p,
                    loader=Loader(name, p, is_pkg),
                    submodule_search_locations=[base] if is_pkg else None,
                )
                return spec
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(root="/repo", package="asn1_parser"):
    sys.meta_path.insert(0, Finder(root, package))
