"""Import hook: modules of the code under test (and the harnesses) are loaded from their current source with the operations that
builtins perform on values routed through rt. Nothing is cached on disk."""
import ast
import importlib.abc
import importlib.machinery
import sys

from . import rt

SKIP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}
RT = "__rt__"
_PURE_OPS = (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)


def _name(id_, ctx=None):
    return ast.Name(id_, ctx or ast.Load())


def _rt(attr):
    return ast.Attribute(_name(RT), attr, ast.Load())


def _call(attr, args, keywords=()):
    return ast.Call(_rt(attr), list(args), list(keywords))


def _thunk(e):
    return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), e)


def pure(e):
    """an expression without calls or other effects"""
    for n in ast.walk(e):
        if isinstance(n, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
            continue
        if not isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.IfExp, ast.Subscript,
                              ast.Slice, ast.Tuple, ast.List, ast.Set)):
            return False
    return True


def arith(e):
    """pure integer arithmetic: may be evaluated speculatively"""
    for n in ast.walk(e):
        if isinstance(n, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
            continue
        if not isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.IfExp)):
            return False
        if isinstance(n, ast.BinOp) and not isinstance(n.op, _PURE_OPS):
            return False
    return True


def _assign_only(body, names):
    for s in body:
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name) or not arith(s.value):
                return False
            names.add(s.targets[0].id)
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name) or not isinstance(s.op, _PURE_OPS) or not arith(s.value):
                return False
            names.add(s.target.id)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.If):
            if not arith(s.test) or not _assign_only(s.body, names) or not _assign_only(s.orelse, names):
                return False
        else:
            return False
    return True


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = ["module"]
        self.qual = []
        self.cls = []
        self.n = 0

    # -------------------------------------------------- scopes
    def in_class_body(self):
        return self.scope[-1] == "class"

    def visit_ClassDef(self, node):
        node.decorator_list = [_call("deco", [self.visit(d)]) if isinstance(d, (ast.Name, ast.Attribute)) else self.visit(d) for d in node.decorator_list]
        node.bases = [self._base(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.scope.append("class")
        self.qual.append(node.name)
        self.cls.append(node.name)
        node.body = self._body(node.body)
        self.cls.pop()
        self.qual.pop()
        self.scope.pop()
        return node

    def _base(self, b):
        b = self.visit(b)
        if isinstance(b, ast.Name) and b.id in ("bytes", "str", "bytearray"):
            return _call("base", [b])
        return b

    def _func(self, node):
        node.decorator_list = [_call("deco", [self.visit(d)]) if isinstance(d, (ast.Name, ast.Attribute)) else self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        self.scope.append("function")
        self.qual.append(node.name)
        body = self._body(node.body)
        self.qual.pop()
        self.scope.pop()
        q = ".".join(self.qual + [node.name])
        hook = ast.Expr(_call("enter", [ast.Constant(self.mod + ":" + q)]))
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            i = 1
        node.body = body[:i] + [ast.copy_location(hook, node)] + body[i:]
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        self.scope.append("function")
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def _comp(self, node):
        return self.generic_visit(node)

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt):
                    setattr(node, field, self._body(old))
                    continue
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new.extend(v)
                            continue
                    new.append(v)
                setattr(node, field, new)
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    # -------------------------------------------------- annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    # -------------------------------------------------- statements
    def visit_If(self, node):
        names = set()
        if (self.scope[-1] == "function" and _assign_only(node.body, names) and _assign_only(node.orelse, names) and names):
            return self._merge_if(node, sorted(names))
        node.test = self._test(node.test)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        return node

    def _merge_if(self, node, names):
        import copy
        self.n += 1
        c, m, o, t = ("__%s%d" % (k, self.n) for k in "cmot")
        test = self._test(node.test)
        plain_body = self._body(copy.deepcopy(node.body))
        plain_else = self._body(copy.deepcopy(node.orelse))
        sb = self._body(copy.deepcopy(node.body))
        se = self._body(copy.deepcopy(node.orelse))
        tup_l = lambda: ast.Tuple([_name(n) for n in names], ast.Load())
        tup_s = lambda: ast.Tuple([_name(n, ast.Store()) for n in names], ast.Store())
        asg = lambda n, v: ast.Assign([_name(n, ast.Store())], v)
        spec = ast.Try(
            body=[asg(o, tup_l()),
                  ast.If(ast.Call(_rt("mergeable"), [ast.Starred(_name(o), ast.Load())], []),
                         sb + [asg(t, tup_l()), ast.Assign([tup_s()], _name(o))] + se + [asg(m, ast.Constant(True))], [])],
            handlers=[ast.ExceptHandler(_name("Exception"), None,
                                        [ast.If(ast.Compare(_name(o), [ast.IsNot()], [ast.Constant(None)]), [ast.Assign([tup_s()], _name(o))], [])])],
            orelse=[], finalbody=[])
        out = [
            asg(c, test), asg(m, ast.Constant(False)), asg(o, ast.Constant(None)),
            ast.If(_call("symcond", [_name(c)]), [spec, ast.If(_name(m), [ast.Assign([tup_s()], _call("merge", [_name(c), _name(t), tup_l()]))], [])], []),
            ast.If(ast.UnaryOp(ast.Not(), _name(m)), [ast.If(_name(c), plain_body or [ast.Pass()], plain_else)], []),
        ]
        return [ast.copy_location(s, node) for s in out]

    def _test(self, e):
        return self.visit(e)

    def visit_ExceptHandler(self, node):
        return self.generic_visit(node)

    def visit_Try(self, node):
        node = self.generic_visit(node)
        for h in node.handlers:
            t = h.type
            if t is None or (isinstance(t, ast.Name) and t.id == "BaseException") or (
                    isinstance(t, ast.Tuple) and any(isinstance(i, ast.Name) and i.id == "BaseException" for i in t.elts)):
                node.handlers.insert(0, ast.ExceptHandler(_rt("Control"), None, [ast.Raise()]))
                break
        return node

    # -------------------------------------------------- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP:
            return self._args(node)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                f.value = self.visit(f.value)
                return self._args(node)
            self._args(node)
            obj = self.visit(f.value)
            if f.attr.startswith("__") and not f.attr.endswith("__") and self.cls:
                f.value = obj
                return ast.copy_location(_call("call", [f] + node.args, node.keywords), node)
            return ast.copy_location(_call("callm", [obj, ast.Constant(f.attr)] + node.args, node.keywords), node)
        self._args(node)
        return ast.copy_location(_call("call", [self.visit(f)] + node.args, node.keywords), node)

    def _args(self, node):
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", [node.value, self._slice(node.slice)]), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return _call("slice_", [s.lower or none, s.upper or none, s.step or none])
        return s

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("not__", [node.operand]), node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("mod", [node.left, node.right]), node)
        return node

    def visit_Compare(self, node):
        if len(node.ops) > 1:
            if not self.in_class_body() and pure(node):
                parts, left = [], node.left
                import copy
                for op, r in zip(node.ops, node.comparators):
                    parts.append(ast.Compare(copy.deepcopy(left), [op], [copy.deepcopy(r)]))
                    left = r
                return self.visit(ast.copy_location(ast.BoolOp(ast.And(), parts), node))
            return self.generic_visit(node)
        node = self.generic_visit(node)
        op, l, r = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return ast.copy_location(_call("contains", [l, r]), node)
        if isinstance(op, ast.NotIn):
            return ast.copy_location(_call("not_contains", [l, r]), node)
        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
            e = _call("is_const", [l, r])
            return ast.copy_location(e if isinstance(op, ast.Is) else _call("not__", [e]), node)
        return node

    def visit_BoolOp(self, node):
        ok = not self.in_class_body() and all(pure(v) for v in node.values)
        node = self.generic_visit(node)
        if not ok:
            return node
        return ast.copy_location(_call("and_" if isinstance(node.op, ast.And) else "or_", [_thunk(v) for v in node.values]), node)

    def visit_IfExp(self, node):
        ok = not self.in_class_body() and arith(node.body) and arith(node.orelse)
        node = self.generic_visit(node)
        if not ok:
            return node
        return ast.copy_location(_call("ifexp", [node.test, _thunk(node.body), _thunk(node.orelse)]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return ast.copy_location(_call("fstr", parts), node)


def transform(source, path, modname):
    tree = ast.parse(source, path)
    rw = Rewriter(modname)
    tree.body = rw._body(tree.body)
    i = 0
    if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(getattr(tree.body[0], "value", None), ast.Constant):
        i = 1
    while i < len(tree.body) and isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__":
        i += 1
    tree.body[i:i] = [
        ast.parse("from symex import rt as __rt__").body[0],
        ast.parse("bytearray = __rt__.bytearray_").body[0],
    ]
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        return compile(transform(src, path, fullname), path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)

    def find_spec(self, name, path=None, target=None):
        if not any(name == p or name.startswith(p + ".") for p in self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(prefixes):
    sys.meta_path.insert(0, Finder(prefixes))
