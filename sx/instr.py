"""Instrumented loading of the real code.

A meta path finder that loads the packages under test from /repo's current working tree (and the harness modules),
compiling them from an AST in which every operation that may look at symbolic data goes through hooks.py.  Nothing
is cached: the encoding is made again from the source on every run.
"""
import ast, importlib.abc, importlib.machinery, os, sys

CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in",
       ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
RAW = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__", "breakpoint"}
PREDS = {"isnumeric", "isdigit", "isdecimal", "isalnum", "isalpha", "isspace", "isupper", "islower", "startswith",
         "endswith"}
SETOPS = {ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.Sub: "-", ast.Mod: "%", ast.Add: "+", ast.Mult: "*", ast.Div: "/"}


def _has_await(n):
    return any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(n))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, fname, table):
        self.mod, self.fname, self.table = modname, fname, table
        self.classes = []
        self.funcs = []

    def hook(self, name, *args, at=None):
        n = ast.Call(func=ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr=name, ctx=ast.Load()),
                     args=list(args), keywords=[])
        return ast.copy_location(n, at) if at is not None else n

    def mangle(self, name):
        if self.classes and name.startswith("__") and not name.endswith("__"):
            c = self.classes[-1].lstrip("_")
            if c:
                return "_" + c + name
        return name

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.classes.append(n.name)
        self.funcs.append(n.name)
        n.body = self.body(n.body)
        self.classes.pop()
        self.funcs.pop()
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def fdef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.returns = None
        for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs:
            a.annotation = None
        if n.args.vararg:
            n.args.vararg.annotation = None
        if n.args.kwarg:
            n.args.kwarg.annotation = None
        self.funcs.append(n.name)
        qual = self.mod + "." + ".".join(self.funcs)
        fid = len(self.table)
        self.table.append((qual, self.fname, n.lineno))
        n.body = self.body(n.body)
        enter = ast.Expr(value=self.hook("enter", ast.Constant(value=fid)))
        ast.copy_location(enter, n)
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
            and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(k, enter)
        self.funcs.pop()
        return n

    visit_FunctionDef = fdef
    visit_AsyncFunctionDef = fdef

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n
        n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_Compare(self, n):
        if len(n.ops) > 1 and _has_await(n):
            self.generic_visit(n)
            return n
        n.left = self.visit(n.left)
        comps = [self.visit(c) for c in n.comparators]
        if len(comps) == 1:
            op = CMP[type(n.ops[0])]
            if op in ("is", "is not") and isinstance(n.comparators[0], ast.Constant) \
                    and n.comparators[0].value is None:
                n.comparators = comps
                return n
            return self.hook("cmp", ast.Constant(value=op), n.left, comps[0], at=n)
        noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        pairs = []
        for op, c in zip(n.ops, comps):
            pairs.append(ast.Constant(value=CMP[type(op)]))
            pairs.append(ast.Lambda(args=noargs, body=c))
        return self.hook("cmpchain", n.left, *pairs, at=n)

    def cheap(self, n):
        """evaluating it has no effect"""
        if isinstance(n, ast.Constant):
            return True
        if isinstance(n, (ast.Name, ast.Attribute)):
            return self.pure(n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.cheap(n.operand)
        if isinstance(n, ast.Compare):
            return self.cheap(n.left) and len(n.comparators) == 1 and self.cheap(n.comparators[0])
        if isinstance(n, ast.BoolOp):
            return all(self.cheap(v) for v in n.values)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.keywords:
            return n.func.attr in PREDS and self.cheap(n.func.value) and all(self.cheap(a) for a in n.args)
        return False

    def visit_BoolOp(self, n):
        if all(isinstance(v, ast.Compare) or isinstance(v, ast.Call) for v in n.values) \
                and all(self.cheap(v) for v in n.values):
            noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
            return self.hook("either" if isinstance(n.op, ast.Or) else "both",
                             *[ast.Lambda(args=noargs, body=self.visit(v)) for v in n.values], at=n)
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        f = n.func
        args = [self.visit(a) for a in n.args]
        kws = [self.visit(k) for k in n.keywords]
        if isinstance(f, ast.Name):
            if f.id in RAW:
                n.args, n.keywords = args, kws
                return n
            r = self.hook("call", self.visit(f), at=n)
        elif isinstance(f, ast.Attribute):
            r = self.hook("callm", self.visit(f.value), ast.Constant(value=self.mangle(f.attr)), at=n)
        else:
            r = self.hook("call", self.visit(f), at=n)
        r.args += args
        r.keywords = kws
        return r

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            if isinstance(n.slice, ast.Slice):
                self.generic_visit(n)
                return n
            return self.hook("getitem", self.visit(n.value), self.visit(n.slice), at=n)
        # stores and deletes: canonical key
        n.value = self.visit(n.value)
        if isinstance(n.slice, ast.Slice):
            n.slice = self.visit(n.slice)
        elif isinstance(n.value, (ast.Name, ast.Attribute)) and self.pure(n.value):
            import copy
            n.slice = self.hook("key", copy.deepcopy(n.value), self.visit(n.slice), at=n)
        else:
            # evaluate the container through a proxy that canonicalises
            n.value = self.hook("boxed", n.value, at=n)
            n.slice = self.visit(n.slice)
        return n

    def pure(self, n):
        while isinstance(n, ast.Attribute):
            n = n.value
        return isinstance(n, ast.Name)

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        op = SETOPS.get(type(n.op))
        if op in ("|", "&", "^", "-") and isinstance(n.target, ast.Name):
            load = ast.Name(id=n.target.id, ctx=ast.Load())
            r = ast.Assign(targets=[n.target], value=self.hook("iop", ast.Constant(value=op), load, n.value))
            ast.copy_location(r, n)
            return ast.fix_missing_locations(r)
        if op in ("|", "&", "^", "-") and isinstance(n.target, ast.Attribute) and self.pure(n.target):
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            r = ast.Assign(targets=[n.target], value=self.hook("iop", ast.Constant(value=op), load, n.value))
            ast.copy_location(r, n)
            return ast.fix_missing_locations(r)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        op = SETOPS.get(type(n.op))
        if op in ("|", "&", "^", "-", "%", "/"):
            return self.hook("binop", ast.Constant(value=op), n.left, n.right, at=n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        items = []
        for k, v in zip(n.keys, n.values):
            kk = ast.Constant(value=None) if k is None else k
            items.append(ast.Tuple(elts=[ast.Constant(value=k is None), kk, v], ctx=ast.Load()))
        if all(k is not None and isinstance(k, ast.Constant) for k in n.keys):
            return n
        return self.hook("mkdict", ast.List(elts=items, ctx=ast.Load()), at=n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return self.hook("mkset", ast.List(elts=n.elts, ctx=ast.Load()), at=n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self.hook("mkset", ast.copy_location(ast.ListComp(elt=n.elt, generators=n.generators), n), at=n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        t = ast.Tuple(elts=[ast.Constant(value=False), n.key, n.value], ctx=ast.Load())
        return self.hook("mkdict", ast.copy_location(ast.ListComp(elt=t, generators=n.generators), n), at=n)

    def visit_JoinedStr(self, n):
        vals = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                r = self.hook("fmt", self.visit(v.value), ast.Constant(value=v.conversion), spec, at=v)
                vals.append(ast.copy_location(ast.FormattedValue(value=r, conversion=-1, format_spec=None), v))
            else:
                vals.append(v)
        n.values = vals
        return n

    def test(self, p, subject):
        """an expression for: subject matches the pattern p (without captures), or None"""
        if isinstance(p, ast.MatchValue):
            return self.hook("cmp", ast.Constant(value="=="), subject, self.visit(p.value), at=p)
        if isinstance(p, ast.MatchSingleton):
            return self.hook("cmp", ast.Constant(value="is"), subject, ast.Constant(value=p.value), at=p)
        if isinstance(p, ast.MatchOr):
            tests = [self.test(q, subject) for q in p.patterns]
            return None if None in tests else ast.copy_location(ast.BoolOp(op=ast.Or(), values=tests), p)
        if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
            return ast.copy_location(ast.Constant(value=True), p)
        return None

    def visit_Match(self, n):
        self.nmatch = getattr(self, "nmatch", 0) + 1
        name = "_sx_match%d" % self.nmatch
        load = ast.Name(id=name, ctx=ast.Load())
        tests = []
        for c in n.cases:
            capture = isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.pattern.name
            tests.append(ast.Constant(value=True) if capture else self.test(c.pattern, load))
        if None in tests:
            self.generic_visit(n)
            n.subject = self.hook("realize", n.subject, at=n.subject)
            return n
        out = []
        for c, t in reversed(list(zip(n.cases, tests))):
            if c.guard is not None:
                t = ast.BoolOp(op=ast.And(), values=[t, self.visit(c.guard)])
            body = self.body(c.body)
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                # the name is bound before the guard is looked at
                bind = ast.NamedExpr(target=ast.Name(id=c.pattern.name, ctx=ast.Store()), value=load)
                t = ast.BoolOp(op=ast.And(), values=[ast.Tuple(elts=[bind], ctx=ast.Load()), t])
            out = [ast.copy_location(ast.If(test=t, body=body, orelse=out), n)]
        first = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=self.visit(n.subject))
        return [ast.copy_location(first, n)] + out


def instrument(source, fname, modname, table):
    tree = ast.parse(source, fname)
    tree = Rewriter(modname, fname, table).visit(tree)
    # __sx__ is put in the module's namespace by the loader
    ast.fix_missing_locations(tree)
    return compile(tree, fname, "exec")


class Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, fullname, path, hooks, table):
        super().__init__(fullname, path)
        self.hooks, self.table = hooks, table

    def get_code(self, fullname):
        with open(self.path, "rb") as f:
            src = f.read()
        return instrument(src, self.path, fullname, self.table)

    def exec_module(self, module):
        module.__dict__["__sx__"] = self.hooks
        exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """roots: {top level package: directory that holds it}"""

    def __init__(self, roots, hooks):
        self.roots, self.hooks = roots, hooks
        self.table = []

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                loader = Loader(fullname, p, self.hooks, self.table)
                spec = importlib.machinery.ModuleSpec(fullname, loader, origin=p, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None
