"""AST rewrite: make every operation that would lose symbolic values go through rt."""
import ast

NORW = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "len", "range", "getattr", "setattr",
        "hasattr", "callable", "enumerate", "zip", "list", "tuple", "iter", "next", "id", "property",
        "staticmethod", "classmethod", "reversed", "ValueError", "TypeError", "NotImplementedError",
        "isinstance", "issubclass", "int", "str", "bool", "type", "set", "dict", "print", "open"}
PROXIED = {"int", "str", "bool", "float", "bytes", "set", "frozenset", "dict", "type"}
BIN = {ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-", ast.BitXor: "^"}


def rt(name):
    return ast.Attribute(ast.Name("__sx__", ast.Load()), name, ast.Load())


def mk(name, *args, keywords=()):
    return ast.Call(rt(name), list(args), list(keywords))


CMPF = {ast.Eq: "cmp_eq", ast.NotEq: "cmp_ne", ast.Lt: "cmp_lt", ast.LtE: "cmp_le", ast.Gt: "cmp_gt", ast.GtE: "cmp_ge"}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.cls = []
        self.n = 0

    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return "_%s%s" % (c, name)
        return name

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        nb = []
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in PROXIED:
                nb.append(mk("unproxy", b))
            else:
                nb.append(self.visit(b))
        node.bases = nb
        node.keywords = [ast.keyword(k.arg, mk("unproxy", k.value) if isinstance(k.value, ast.Name) and k.value.id in PROXIED else self.visit(k.value)) for k in node.keywords]
        self.cls.append(node.name)
        node.body = self.body(node.body)
        self.cls.pop()
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.body = self.body(node.body)
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, (ast.Attribute, ast.Subscript)):
            node.target.value = self.visit(node.target.value)
        return node

    def visit_Call(self, node):
        f = node.func
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Name) and f.id in NORW:
            return ast.copy_location(ast.Call(f, args, kws), node)
        if isinstance(f, ast.Attribute):
            v = self.visit(f.value)
            r = mk("callm", v, ast.Constant(self.mangle(f.attr)), *args, keywords=kws)
        else:
            r = mk("call", self.visit(f), *args, keywords=kws)
        return ast.copy_location(r, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot)):
                for x in (l, r):
                    if isinstance(x, ast.Constant) and (x.value is None or x.value is Ellipsis):
                        return node
                return ast.copy_location(mk("is_" if isinstance(op, ast.Is) else "is_not", l, r), node)
            if isinstance(op, ast.In):
                return ast.copy_location(mk("contains_", l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(mk("not_contains_", l, r), node)
            nm = CMPF.get(type(op))
            if nm and not any(isinstance(x, ast.Constant) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "type")) for x in (l, r)):
                return ast.copy_location(mk(nm, l, r), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(mk("s_not", node.operand), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = BIN.get(type(node.op))
        if op:
            return ast.copy_location(mk("binop", ast.Constant(op), node.left, node.right), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [s.lower or n, s.upper or n, s.step or n], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(mk("getitem", node.value, self._slice(node.slice)), node)
        return node

    def visit_Slice(self, node):
        self.generic_visit(node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            v = self.visit(node.value)
            return ast.copy_location(ast.Expr(mk("setitem_", v, self.visit(t.value), self._slice(self.visit(t.slice)))), node)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            self.n += 1
            a, b = "_sx_t%d" % self.n, "_sx_k%d" % self.n
            s1 = ast.Assign([ast.Name(a, ast.Store())], self.visit(t.value))
            s2 = ast.Assign([ast.Name(b, ast.Store())], self._slice(self.visit(t.slice)))
            la, lb = ast.Name(a, ast.Load()), ast.Name(b, ast.Load())
            val = ast.BinOp(mk("getitem", la, lb), node.op, self.visit(node.value))
            op = BIN.get(type(node.op))
            if op:
                val = mk("binop", ast.Constant(op), val.left, val.right)
            s3 = ast.Expr(mk("setitem_", val, la, lb))
            return [ast.copy_location(x, node) for x in (s1, s2, s3)]
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            v = mk("binop", ast.Constant("%"), ast.Name(node.target.id, ast.Load()), self.visit(node.value))
            return ast.copy_location(ast.Assign([node.target], v), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(mk("delitem", self.visit(t.value), self._slice(self.visit(t.slice)))), node))
            else:
                out.append(ast.copy_location(ast.Delete([self.visit(t)]), node))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(mk("fstr", *parts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None for k in node.keys) and any(not isinstance(k, ast.Constant) for k in node.keys):
            pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            return ast.copy_location(mk("mkdict", ast.List(pairs, ast.Load())), node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(mk("mkdict", ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(mk("mkset", ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(mk("mkset", ast.ListComp(node.elt, node.generators)), node)

    def visit_Try(self, node):
        node.body = self.body(node.body)
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.body(h.body)
        node.orelse = self.body(node.orelse)
        node.finalbody = self.body(node.finalbody)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(rt("Control"), None, [ast.Raise(None, None)]))
        return node


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    # annotations are evaluated natively
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
