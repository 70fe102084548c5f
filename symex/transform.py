"""
AST transformation of the executed sources.  It changes no behaviour on concrete
values; on symbolic conditions it lets both sides of simple conditionals be
evaluated and merged instead of forking.
"""

import ast

CALLS = {
    "int", "float", "complex", "bool", "isinstance", "set", "frozenset", "dict", "OrderedDict",
    "enumerate", "range", "min", "max", "sum", "abs", "hash", "round", "type", "len", "any",
    "all", "sorted", "divmod", "pow", "list", "tuple", "defaultdict", "issubclass", "callable",
    "factorial", "sqrt", "floor", "ceil", "comb", "perm", "id", "reversed", "Fraction", "str",
    "repr", "bin", "map", "filter",
}
ATTR_CALLS = {
    "uint64", "int64", "uint32", "int32", "float64", "complex128", "bool_", "sort", "float32",
    "fromkeys", "index", "count", "remove",
}
# calls allowed inside speculatively executed code
PURE = {
    "isinstance", "len", "int", "float", "abs", "min", "max", "bool", "complex", "tuple", "type",
    "sum", "round", "all", "any",
}
PURE_ATTR = {
    "abs", "sqrt", "min", "max", "all", "any", "dot", "uint64", "int64", "float64", "logical_and",
    "logical_or", "conjugate", "isdisjoint", "issubset", "array_equal", "allclose",
}
LOGICAL = (ast.And, ast.Or)


def is_simple_expr(e):
    """no side effects when evaluated speculatively (best effort)"""
    for n in ast.walk(e):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda,
                          ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Starred,
                          ast.JoinedStr)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE:
                continue
            if isinstance(f, ast.Attribute) and f.attr in PURE_ATTR:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "__sx__":
                continue
            return False
    return True


def simple_assign_targets(stmts):
    """Names assigned when stmts are plain name assignments / nested ifs, else None."""
    names = []
    for s in stmts:
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1:
                return None
            t = s.targets[0]
            ts = t.elts if isinstance(t, ast.Tuple) else [t]
            for x in ts:
                if not isinstance(x, ast.Name):
                    return None
                names.append(x.id)
            if not is_simple_expr(s.value):
                return None
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name) or not is_simple_expr(s.value):
                return None
            names.append(s.target.id)
        elif isinstance(s, ast.If):
            if not is_simple_expr(s.test):
                return None
            a = simple_assign_targets(s.body)
            b = simple_assign_targets(s.orelse)
            if a is None or b is None:
                return None
            names += a + b
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            pass
        else:
            return None
    return names


def sx(attr, *args):
    return ast.Call(
        func=ast.Attribute(value=ast.Name("__sx__", ast.Load()), attr=attr, ctx=ast.Load()),
        args=list(args), keywords=[])


def lam(e):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
                           kw_defaults=[], kwarg=None, defaults=[]),
        body=e)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []            # ("class"|"func", name)
        self.counter = 0
        self.nolocals = [set()]    # global/nonlocal names per function

    # -- scopes -----------------------------------------------------------
    def in_func(self):
        return bool(self.scope) and self.scope[-1][0] == "func"

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.scope.append(("class", n.name))
        n.body = self.block(n.body)
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit_args(n.args)
        self.scope.append(("func", n.name))
        gl = set()
        for m in ast.walk(n):
            if isinstance(m, (ast.Global, ast.Nonlocal)):
                gl |= set(m.names)
        self.nolocals.append(gl)
        body = self.block(n.body)
        self.nolocals.pop()
        qual = ".".join(s[1] for s in self.scope)
        self.scope.pop()
        mark = ast.Expr(sx("mark", ast.Constant("%s:%s" % (self.mod, qual))))
        # keep the docstring first
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            body.insert(1, mark)
        else:
            body.insert(0, mark)
        n.body = body
        n.returns = None
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]:
            x.annotation = None
        return a

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass() if self.in_func() else n
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Name) or True:
            t = self.visit(n.target)
            return ast.Assign(targets=[t], value=n.value)

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            return ast.Assign(targets=[ast.Name(n.target.id, ast.Store())],
                              value=sx("iop", ast.Constant(type(n.op).__name__), name(n.target.id), n.value))
        n.target = self.visit(n.target)
        return n

    # -- expressions ---------------------------------------------------------
    def can_lambda(self, *exprs):
        if self.scope and self.scope[-1][0] == "class":
            return False
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                    return False
                if isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__"):
                    return False
        return True

    def visit_BoolOp(self, n):
        simple = [is_simple_expr(v) for v in n.values]
        vals = [self.visit(v) for v in n.values]
        if not self.can_lambda(*vals[1:]):
            n.values = vals
            return n
        fn = "and_" if isinstance(n.op, ast.And) else "or_"
        r = vals[0]
        for v, s in zip(vals[1:], simple[1:]):
            r = sx(fn, r, lam(v), ast.Constant(bool(s)))
        return r

    def visit_UnaryOp(self, n):
        n.operand = self.visit(n.operand)
        if isinstance(n.op, ast.Not):
            return sx("not_", n.operand)
        return n

    def visit_IfExp(self, n):
        ok = is_simple_expr(n.body) and is_simple_expr(n.orelse)
        n.test, n.body, n.orelse = self.visit(n.test), self.visit(n.body), self.visit(n.orelse)
        if ok and self.can_lambda(n.body, n.orelse):
            return sx("ifexp", n.test, lam(n.body), lam(n.orelse))
        return n

    OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
           ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}

    def visit_Compare(self, n):
        n.left = self.visit(n.left)
        n.comparators = [self.visit(c) for c in n.comparators]
        if len(n.ops) == 1:
            op = self.OPS[type(n.ops[0])]
            if op in ("is", "is not"):
                return n
            return sx("cmp", ast.Constant(op), n.left, n.comparators[0])
        if not self.can_lambda(*n.comparators):
            return n
        ops = ast.Constant(tuple(self.OPS[type(o)] for o in n.ops))
        return sx("chain", ops, n.left, *[lam(c) for c in n.comparators])

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super":
            return n
        n.func = self.visit(f)
        n.args = [self.visit(a) for a in n.args]
        n.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        if isinstance(f, ast.Name) and f.id in CALLS:
            return ast.Call(func=sx("fn", n.func), args=n.args, keywords=n.keywords)
        if isinstance(f, ast.Attribute) and f.attr in ATTR_CALLS:
            return ast.Call(func=sx("method", n.func.value, ast.Constant(f.attr)),
                            args=n.args, keywords=n.keywords)
        return n

    def visit_Dict(self, n):
        n.keys = [self.visit(k) if k is not None else None for k in n.keys]
        n.values = [self.visit(v) for v in n.values]
        if not self.in_func() or any(k is None for k in n.keys):
            return n
        return sx("mkdict", ast.List([ast.Tuple([k, v], ast.Load())
                                      for k, v in zip(n.keys, n.values)], ast.Load()))

    def visit_Set(self, n):
        n.elts = [self.visit(e) for e in n.elts]
        if not self.in_func():
            return n
        return sx("mkset", ast.List(n.elts, ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        if not self.in_func():
            return n
        return sx("mkdict", ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        if not self.in_func():
            return n
        return sx("mkset", ast.ListComp(n.elt, n.generators))

    def visit_JoinedStr(self, n):
        return n

    # -- statements -------------------------------------------------------------
    def fresh(self, p):
        self.counter += 1
        return "__sx_%s%d" % (p, self.counter)

    def visit_If(self, n):
        names = None
        if self.in_func():
            a = simple_assign_targets(n.body)
            b = simple_assign_targets(n.orelse)
            if a is not None and b is not None and (a or b):
                names = sorted(set(a) | set(b))
                if set(names) & self.nolocals[-1]:
                    names = None
        test = self.visit(n.test)
        if names is None:
            n.test = test
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse) if n.orelse else []
            return n
        return self.merged_if(test, n.body, n.orelse, names)

    def merged_if(self, test, body, orelse, names, else_fork=None):
        import copy
        c, m = self.fresh("c"), self.fresh("m")
        body1 = self.block(copy.deepcopy(body))
        else1 = self.block(copy.deepcopy(orelse)) if orelse else [ast.Pass()]
        body2 = self.block(copy.deepcopy(body))
        else2 = self.block(copy.deepcopy(orelse)) if orelse else []
        if else_fork:
            else2 = else_fork
        snap = ast.Tuple([sx("get", lam(name(x))) for x in names], ast.Load())
        s0, s1, s2 = self.fresh("s"), self.fresh("s"), self.fresh("s")
        tgt = ast.Tuple([name(x, ast.Store()) for x in names], ast.Store())

        def assign(t, v):
            return ast.Assign(targets=[t], value=v)

        restore = assign(tgt, name(s0))
        spec = (
            [ast.Expr(sx("enter", name(m), ast.Constant(True)))] + body1 +
            [assign(name(s1, ast.Store()), copy.deepcopy(snap)), copy.deepcopy(restore),
             ast.Expr(sx("enter", name(m), ast.Constant(False)))] + else1 +
            [assign(name(s2, ast.Store()), copy.deepcopy(snap)), copy.deepcopy(restore),
             ast.Expr(sx("leave", name(m))),
             assign(copy.deepcopy(tgt), sx("merge", name(m), name(s1), name(s2)))])
        handler = ast.ExceptHandler(
            type=ast.Attribute(name("__sx__"), "ABORTS", ast.Load()), name=None,
            body=[copy.deepcopy(restore), ast.Expr(sx("abort", name(m))),
                  assign(name(m, ast.Store()), ast.Constant(None))])
        return [
            assign(name(c, ast.Store()), test),
            assign(name(m, ast.Store()), sx("begin", name(c))),
            ast.If(
                test=ast.Compare(name(m), [ast.IsNot()], [ast.Constant(None)]),
                body=[assign(name(s0, ast.Store()), copy.deepcopy(snap)),
                      ast.Try(body=spec, handlers=[handler], orelse=[], finalbody=[])],
                orelse=[]),
            ast.If(
                test=ast.Compare(name(m), [ast.Is()], [ast.Constant(None)]),
                body=[ast.If(test=name(c), body=body2, orelse=else2)],
                orelse=[]),
        ]

    def visit_For(self, n):
        import copy
        n.iter = self.visit(n.iter)
        names = None
        if self.in_func() and isinstance(n.target, ast.Name) and not n.orelse:
            a = simple_assign_targets(n.body)
            if a and n.target.id not in a and not (set(a) & self.nolocals[-1]):
                names = sorted(set(a))
        if names is None:
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse) if n.orelse else []
            return n
        it, g = self.fresh("it"), self.fresh("g")
        plain = ast.For(target=copy.deepcopy(n.target), iter=name(it),
                        body=self.block(copy.deepcopy(n.body)), orelse=[])
        guarded_body = self.merged_if(name(g), n.body, [], names, else_fork=[ast.Break()])
        guarded = ast.For(
            target=ast.Tuple([copy.deepcopy(n.target), name(g, ast.Store())], ast.Store()),
            iter=sx("guarded", name(it)), body=guarded_body, orelse=[])
        return [
            ast.Assign(targets=[name(it, ast.Store())], value=n.iter),
            ast.If(test=sx("issymrange", name(it)), body=[guarded], orelse=[plain]),
        ]

    def visit_While(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    # `if __name__ == "__main__"` never runs here
    t = Transformer(modname)
    tree.body = t.block(tree.body)
    # __future__ imports must stay first
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
