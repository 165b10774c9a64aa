"""Rewrites a Python 2 syntax tree (as dumped by Jython's parser) into a Python 3
tree in which the Python 2 semantics that differ, and every operation that native
objects would refuse for symbolic operands, are explicit calls into runtime.py."""
import ast
import linecache

RENAME_ATTR = {"func_name": "__name__", "func_defaults": "__defaults__",
               "func_code": "__code__", "im_func": "__func__",
               "im_self": "__self__", "func_globals": "__globals__",
               "func_dict": "__dict__"}
SPECIAL_ATTR = set("""iteritems itervalues iterkeys viewkeys viewvalues viewitems
 has_key next sort join split rsplit partition rpartition strip lstrip rstrip
 startswith endswith find rfind index rindex count replace encode decode format
 keys values items splitlines lower upper""".split())

BINOPS = {"Add": ast.Add, "Sub": ast.Sub, "Mult": ast.Mult, "Pow": ast.Pow,
          "LShift": ast.LShift, "RShift": ast.RShift, "BitOr": ast.BitOr,
          "BitXor": ast.BitXor, "BitAnd": ast.BitAnd,
          "FloorDiv": ast.FloorDiv, "Div": ast.Div, "Mod": ast.Mod}
OPFUNC = {"Div": "__op_div__", "Mod": "__op_mod__", "Pow": "__op_pow__",
          "FloorDiv": "__op_floordiv__", "Mult": "__op_mul__",
          "RShift": "__op_rshift__", "LShift": "__op_lshift__",
          "BitAnd": "__op_and__", "BitXor": "__op_xor__",
          "BitOr": "__op_or__"}
CMPFUNC = {"Lt": "__op_lt__", "LtE": "__op_le__", "Gt": "__op_gt__",
           "GtE": "__op_ge__", "In": "__op_in__", "NotIn": "__op_notin__",
           "Eq": "__op_eq__", "NotEq": "__op_ne__"}


class Convert(object):

    def __init__(self, filename, modname, true_division=False):
        self.filename = filename
        self.modname = modname
        self.true_division = true_division
        self.counter = 0
        self.functions = []
        self.qual = []

    # -- helpers ---------------------------------------------------------
    def text(self, x):
        if x is None:
            return None
        if isinstance(x, str):
            return x
        return x.get("_s", x.get("_u"))

    def load(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def call(self, name, args):
        return ast.Call(func=self.load(name), args=args, keywords=[])

    def lam(self, body):
        return ast.Lambda(args=self.noargs(), body=body)

    def noargs(self):
        return ast.arguments(posonlyargs=[], args=[], vararg=None,
                             kwonlyargs=[], kw_defaults=[], kwarg=None,
                             defaults=[])

    def fresh(self, base):
        self.counter += 1
        return "__%s_%d" % (base, self.counter)

    def const(self, v):
        return ast.Constant(value=v)

    def at(self, new, node):
        line = node.get("lineno", 1) if isinstance(node, dict) else 1
        new.lineno = getattr(new, "lineno", None) or line
        new.col_offset = 0
        new.end_lineno = new.lineno
        new.end_col_offset = 0
        return new

    # -- entry -----------------------------------------------------------
    def module(self, node):
        body = []
        for s in node["body"]:
            if (s["_"] == "ImportFrom" and
                    self.text(s["module"]) == "__future__"):
                for a in s["names"]:
                    if self.text(a["name"]) == "division":
                        self.true_division = True
        body = self.stmts(node["body"])
        mod = ast.Module(body=body, type_ignores=[])
        ast.fix_missing_locations(mod)
        return mod

    def stmts(self, nodes):
        out = []
        for n in nodes:
            r = self.stmt(n)
            if isinstance(r, list):
                out.extend(self.at(x, n) for x in r)
            elif r is not None:
                out.append(self.at(r, n))
        return out or [ast.Pass()]

    def stmt(self, n):
        return getattr(self, "s_" + n["_"])(n)

    def expr(self, n):
        if n is None:
            return None
        return self.at(getattr(self, "e_" + n["_"])(n), n)

    def ctx(self, n):
        c = n["_"]
        return {"Load": ast.Load, "Store": ast.Store, "Del": ast.Del,
                "Param": ast.Store, "AugStore": ast.Store,
                "AugLoad": ast.Load}[c]()

    # -- statements ------------------------------------------------------
    def args(self, a):
        names, prologue = [], []
        for arg in a["args"]:
            if arg["_"] == "Name":
                names.append(ast.arg(arg=self.text(arg["id"]), annotation=None))
            else:
                tmp = self.fresh("targ")
                names.append(ast.arg(arg=tmp, annotation=None))
                prologue.append((tmp, arg))
        def opt(x):
            return ast.arg(arg=self.text(x), annotation=None) if x else None
        args = ast.arguments(
            posonlyargs=[], args=names, vararg=opt(a["vararg"]),
            kwonlyargs=[], kw_defaults=[], kwarg=opt(a["kwarg"]),
            defaults=[self.expr(d) for d in a["defaults"]])
        return args, prologue

    def contains_yield(self, nodes):
        for n in nodes if isinstance(nodes, list) else [nodes]:
            if isinstance(n, dict):
                if n.get("_") == "Yield":
                    return True
                if n.get("_") in ("FunctionDef", "Lambda", "ClassDef"):
                    continue
                if self.contains_yield(list(n.values())):
                    return True
            elif isinstance(n, list):
                if self.contains_yield(n):
                    return True
        return False

    def s_FunctionDef(self, n):
        name = self.text(n["name"])
        if name == "__nonzero__":
            name = "__bool__"
        elif name == "next" and self.qual and self.qual[-1][0] == "class":
            pass
        args, prologue = self.args(n["args"])
        self.qual.append(("def", name))
        qual = self.modname + ":" + ".".join(q for _, q in self.qual)
        self.functions.append(qual)
        body = []
        for tmp, arg in prologue:
            body.append(self.at(ast.Assign(targets=[self.target(arg)],
                                           value=self.load(tmp)), n))
        inner = self.stmts(n["body"])
        doc = []
        if (inner and isinstance(inner[0], ast.Expr) and
                isinstance(inner[0].value, ast.Constant) and
                isinstance(inner[0].value.value, str)):
            doc = [inner.pop(0)]
            inner = inner or [ast.Pass()]
        inner = [self.at(ast.Expr(self.call("__cov__", [self.const(qual)])), n)
                 ] + body + inner
        if self.contains_yield(n["body"]):
            inner = [self.at(ast.Try(
                body=inner,
                handlers=[ast.ExceptHandler(
                    type=self.load("__StopIteration__"), name=None,
                    body=[ast.Return(value=None)])],
                orelse=[], finalbody=[]), n)]
        self.qual.pop()
        decorators = [self.expr(d) for d in n["decorator_list"]]
        f = ast.FunctionDef(name=name, args=args, body=doc + inner,
                            decorator_list=decorators, returns=None)
        f.type_params = []
        if name == "next" and self.qual and self.qual[-1][0] == "class":
            alias = ast.Assign(
                targets=[ast.Name(id="__next__", ctx=ast.Store())],
                value=self.load("next"))
            return [f, alias]
        return f

    def s_ClassDef(self, n):
        name = self.text(n["name"])
        self.qual.append(("class", name))
        bases = [self.expr(b) for b in n["bases"]]
        body = self.stmts(n["body"])
        self.qual.pop()
        # Python 2's __metaclass__ in the body
        keywords = []
        for s in list(body):
            if (isinstance(s, ast.Assign) and
                    isinstance(s.targets[0], ast.Name) and
                    s.targets[0].id == "__metaclass__"):
                keywords = [ast.keyword(arg="metaclass", value=s.value)]
        names = [s.name for s in body if isinstance(s, ast.FunctionDef)]
        if "__eq__" in names and "__hash__" not in names:
            body.append(self.at(ast.Assign(
                targets=[ast.Name(id="__hash__", ctx=ast.Store())],
                value=ast.Attribute(value=self.load("__object__"),
                                    attr="__hash__", ctx=ast.Load())), n))
        c = ast.ClassDef(name=name, bases=bases, keywords=keywords, body=body,
                         decorator_list=[self.expr(d)
                                         for d in n["decorator_list"]])
        c.type_params = []
        return c

    def s_Return(self, n):
        return ast.Return(value=self.expr(n["value"]))

    def s_Delete(self, n):
        return ast.Delete(targets=[self.target(t, ast.Del())
                                   for t in n["targets"]])

    def s_Assign(self, n):
        return ast.Assign(targets=[self.target(t) for t in n["targets"]],
                          value=self.expr(n["value"]))

    def s_AugAssign(self, n):
        op = n["op"]["_"]
        if op == "Div" and self.true_division:
            op = "TrueDiv_"
        if op not in OPFUNC:
            cls = BINOPS.get(op, ast.Div)
            return ast.AugAssign(target=self.target(n["target"]), op=cls(),
                                 value=self.expr(n["value"]))
        t = n["target"]
        func = OPFUNC[op]
        if t["_"] == "Name":
            return ast.Assign(
                targets=[self.target(t)],
                value=self.call(func, [self.load(self.text(t["id"])),
                                       self.expr(n["value"])]))
        if t["_"] == "Attribute":
            tmp = self.fresh("aug")
            attr = self.text(t["attr"])
            return [
                ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                           value=self.expr(t["value"])),
                ast.Assign(
                    targets=[ast.Attribute(value=self.load(tmp), attr=attr,
                                           ctx=ast.Store())],
                    value=self.call(func, [
                        ast.Attribute(value=self.load(tmp), attr=attr,
                                      ctx=ast.Load()),
                        self.expr(n["value"])]))]
        tmp, idx = self.fresh("aug"), self.fresh("idx")
        return [
            ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                       value=self.expr(t["value"])),
            ast.Assign(targets=[ast.Name(id=idx, ctx=ast.Store())],
                       value=self.slice(t["slice"])),
            ast.Assign(
                targets=[ast.Subscript(value=self.load(tmp),
                                       slice=self.load(idx),
                                       ctx=ast.Store())],
                value=self.call(func, [
                    ast.Subscript(value=self.load(tmp), slice=self.load(idx),
                                  ctx=ast.Load()),
                    self.expr(n["value"])]))]

    def s_Print(self, n):
        return ast.Expr(self.call("__print__",
                                  [self.expr(v) for v in n["values"] or []]))

    def tick(self):
        return self.at(ast.Expr(self.call("__tick__", [])), {"lineno": 1})

    def s_For(self, n):
        return ast.For(target=self.target(n["target"]),
                       iter=self.call("__iter__", [self.expr(n["iter"])]),
                       body=[self.tick()] + self.stmts(n["body"]),
                       orelse=self.stmts(n["orelse"]) if n["orelse"] else [])

    def s_While(self, n):
        return ast.While(test=self.expr(n["test"]),
                         body=[self.tick()] + self.stmts(n["body"]),
                         orelse=self.stmts(n["orelse"]) if n["orelse"] else [])

    def s_If(self, n):
        return ast.If(test=self.expr(n["test"]), body=self.stmts(n["body"]),
                      orelse=self.stmts(n["orelse"]) if n["orelse"] else [])

    def s_With(self, n):
        item = ast.withitem(context_expr=self.expr(n["context_expr"]),
                            optional_vars=self.target(n["optional_vars"])
                            if n["optional_vars"] else None)
        return ast.With(items=[item], body=self.stmts(n["body"]))

    def s_Raise(self, n):
        if n["type"] is None:
            return ast.Raise(exc=None, cause=None)
        exc = self.expr(n["type"])
        if n["inst"] is not None:
            exc = self.call("__mkexc__", [exc, self.expr(n["inst"])])
        else:
            exc = self.call("__mkexc__", [exc])
        return ast.Raise(exc=exc, cause=None)

    def abort_handler(self):
        return ast.ExceptHandler(type=self.load("__Abort__"), name=None,
                                 body=[ast.Raise(exc=None, cause=None)])

    def s_TryExcept(self, n):
        handlers = [self.abort_handler()]
        for h in n["handlers"]:
            body = self.stmts(h["body"])
            name = None
            if h["name"] is not None:
                if h["name"]["_"] == "Name":
                    # keep the binding alive after the handler, as Python 2
                    tmp = self.fresh("exc")
                    body = [self.at(ast.Assign(
                        targets=[self.target(h["name"])],
                        value=self.load(tmp)), n)] + body
                    name = tmp
                else:
                    name = self.fresh("exc")
                    body = [self.at(ast.Assign(
                        targets=[self.target(h["name"])],
                        value=self.load(name)), n)] + body
            handlers.append(ast.ExceptHandler(
                type=self.call("__exctype__", [self.expr(h["type"])])
                if h["type"] else None, name=name, body=body))
        return ast.Try(body=self.stmts(n["body"]), handlers=handlers,
                       orelse=self.stmts(n["orelse"]) if n["orelse"] else [],
                       finalbody=[])

    def s_TryFinally(self, n):
        return ast.Try(body=self.stmts(n["body"]), handlers=[], orelse=[],
                       finalbody=self.stmts(n["finalbody"]))

    def s_Assert(self, n):
        return ast.Assert(test=self.expr(n["test"]), msg=self.expr(n["msg"]))

    def alias(self, a):
        return ast.alias(name=self.text(a["name"]),
                         asname=self.text(a["asname"]))

    def s_Import(self, n):
        return ast.Import(names=[self.alias(a) for a in n["names"]])

    def s_ImportFrom(self, n):
        mod = self.text(n["module"])
        if mod == "__future__":
            return ast.Pass()
        return ast.ImportFrom(module=mod or None,
                              names=[self.alias(a) for a in n["names"]],
                              level=int(n["level"]["_i"])
                              if isinstance(n["level"], dict)
                              else (n["level"] or 0))

    def s_Exec(self, n):
        return ast.Expr(self.call("__unsupported__", [self.const("exec")]))

    def s_Global(self, n):
        return ast.Global(names=[self.text(x) for x in n["names"]])

    def s_Expr(self, n):
        return ast.Expr(value=self.expr(n["value"]))

    def s_Pass(self, n):
        return ast.Pass()

    def s_Break(self, n):
        return ast.Break()

    def s_Continue(self, n):
        return ast.Continue()

    # -- targets ---------------------------------------------------------
    def target(self, n, ctx=None):
        ctx = ctx or ast.Store()
        k = n["_"]
        if k == "Name":
            r = ast.Name(id=self.text(n["id"]), ctx=ctx)
        elif k == "Attribute":
            attr = self.text(n["attr"])
            r = ast.Attribute(value=self.expr(n["value"]),
                              attr=RENAME_ATTR.get(attr, attr), ctx=ctx)
        elif k == "Subscript":
            r = ast.Subscript(value=self.expr(n["value"]),
                              slice=self.slice(n["slice"]), ctx=ctx)
        elif k == "Tuple":
            r = ast.Tuple(elts=[self.target(e, ctx) for e in n["elts"]],
                          ctx=ctx)
        elif k == "List":
            r = ast.List(elts=[self.target(e, ctx) for e in n["elts"]],
                         ctx=ctx)
        else:
            raise TypeError(k)
        return self.at(r, n)

    # -- expressions -----------------------------------------------------
    def e_BoolOp(self, n):
        op = ast.And() if n["op"]["_"] == "And" else ast.Or()
        return ast.BoolOp(op=op, values=[self.expr(v) for v in n["values"]])

    def e_BinOp(self, n):
        op = n["op"]["_"]
        left, right = self.expr(n["left"]), self.expr(n["right"])
        if op == "Div" and self.true_division:
            return self.call("__op_truediv__", [left, right])
        if op in OPFUNC:
            return self.call(OPFUNC[op], [left, right])
        return ast.BinOp(left=left, op=BINOPS[op](), right=right)

    def e_UnaryOp(self, n):
        op = n["op"]["_"]
        if op == "Not":
            return self.call("__op_not__", [self.expr(n["operand"])])
        cls = {"USub": ast.USub, "UAdd": ast.UAdd, "Invert": ast.Invert}[op]
        return ast.UnaryOp(op=cls(), operand=self.expr(n["operand"]))

    def e_Lambda(self, n):
        args, prologue = self.args(n["args"])
        body = self.expr(n["body"])
        for tmp, arg in reversed(prologue):
            names = [self.text(e["id"]) for e in arg["elts"]]
            inner = ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x)
                                                         for x in names],
                                   vararg=None, kwonlyargs=[], kw_defaults=[],
                                   kwarg=None, defaults=[]), body=body)
            body = ast.Call(func=inner, args=[
                ast.Starred(value=self.load(tmp), ctx=ast.Load())],
                keywords=[])
        return ast.Lambda(args=args, body=body)

    def e_IfExp(self, n):
        return ast.IfExp(test=self.expr(n["test"]), body=self.expr(n["body"]),
                         orelse=self.expr(n["orelse"]))

    def e_Dict(self, n):
        pairs = [ast.Tuple(elts=[self.expr(k), self.expr(v)], ctx=ast.Load())
                 for k, v in zip(n["keys"], n["values"])]
        return self.call("__mkdict__", [ast.List(elts=pairs, ctx=ast.Load())])

    def e_Set(self, n):
        return self.call("__mkset__", [ast.List(
            elts=[self.expr(e) for e in n["elts"]], ctx=ast.Load())])

    def comps(self, gens):
        out = []
        for g in gens:
            out.append(ast.comprehension(
                target=self.target(g["target"]),
                iter=self.call("__iter__", [self.expr(g["iter"])]),
                ifs=[self.expr(i) for i in g["ifs"]], is_async=0))
        return out

    def e_ListComp(self, n):
        return ast.ListComp(elt=self.expr(n["elt"]),
                            generators=self.comps(n["generators"]))

    def e_SetComp(self, n):
        return self.call("__mkset__", [self.e_ListComp(n)])

    def e_DictComp(self, n):
        elt = ast.Tuple(elts=[self.expr(n["key"]), self.expr(n["value"])],
                        ctx=ast.Load())
        return self.call("__mkdict__", [ast.ListComp(
            elt=elt, generators=self.comps(n["generators"]))])

    def e_GeneratorExp(self, n):
        return ast.GeneratorExp(elt=self.expr(n["elt"]),
                                generators=self.comps(n["generators"]))

    def e_Yield(self, n):
        return ast.Yield(value=self.expr(n["value"]))

    def e_Compare(self, n):
        ops = [o["_"] for o in n["ops"]]
        comps = [self.expr(c) for c in n["comparators"]]
        left = self.expr(n["left"])
        if len(ops) == 1:
            op = ops[0]
            if op in CMPFUNC:
                return self.call(CMPFUNC[op], [left, comps[0]])
            cls = {"Is": ast.Is, "IsNot": ast.IsNot}[op]
            return ast.Compare(left=left, ops=[cls()], comparators=comps)
        return self.call("__op_chain__", [
            left, ast.List(elts=[self.const(o) for o in ops], ctx=ast.Load()),
            ast.List(elts=[self.lam(c) for c in comps], ctx=ast.Load())])

    def e_Call(self, n):
        args = [self.expr(a) for a in n["args"]]
        if n["starargs"] is not None:
            args.append(ast.Starred(value=self.expr(n["starargs"]),
                                    ctx=ast.Load()))
        keywords = [ast.keyword(arg=self.text(k["arg"]),
                                value=self.expr(k["value"]))
                    for k in n["keywords"]]
        if n["kwargs"] is not None:
            keywords.append(ast.keyword(arg=None, value=self.expr(n["kwargs"])))
        func = n["func"]
        if func["_"] == "Attribute":
            attr = self.text(func["attr"])
            if attr in SPECIAL_ATTR:
                return ast.Call(func=self.load("__call_attr__"),
                                args=[self.expr(func["value"]),
                                      self.const(attr)] + args,
                                keywords=keywords)
        elif func["_"] == "Name" and self.text(func["id"]) == "super" \
                and not args:
            return ast.Call(func=self.load("super"), args=[], keywords=[])
        elif func["_"] == "Name" and self.text(func["id"]) in (
                "locals", "vars", "globals", "dir") and not args:
            pass
        return ast.Call(func=self.expr(func), args=args, keywords=keywords)

    def e_Repr(self, n):
        return self.call("repr", [self.expr(n["value"])])

    def e_Num(self, n):
        v = n["n"]
        if "_i" in v:
            return self.const(int(v["_i"]))
        if "_f" in v:
            return self.const(float(v["_f"]))
        return self.const(complex(v["_c"]))

    def e_Str(self, n):
        s = n["s"]
        if "_u" in s:
            return self.const(s["_u"])
        return self.const(s["_s"])

    def e_Attribute(self, n):
        attr = self.text(n["attr"])
        if attr in SPECIAL_ATTR:
            return self.call("__get_attr__", [self.expr(n["value"]),
                                              self.const(attr)])
        return ast.Attribute(value=self.expr(n["value"]),
                             attr=RENAME_ATTR.get(attr, attr), ctx=ast.Load())

    def slice(self, s):
        k = s["_"]
        if k == "Index":
            return self.expr(s["value"])
        if k == "Slice":
            return ast.Slice(lower=self.expr(s["lower"]),
                             upper=self.expr(s["upper"]),
                             step=self.expr(s["step"]))
        if k == "Ellipsis":
            return self.const(Ellipsis)
        return ast.Tuple(elts=[self.slice(d) for d in s["dims"]],
                         ctx=ast.Load())

    def e_Subscript(self, n):
        s = n["slice"]
        if s["_"] == "Slice":
            none = self.const(None)
            return self.call("__slice__", [
                self.expr(n["value"]), self.expr(s["lower"]) or none,
                self.expr(s["upper"]) or none, self.expr(s["step"]) or none])
        return self.call("__getitem__", [self.expr(n["value"]), self.slice(s)])

    def e_Name(self, n):
        name = self.text(n["id"])
        if name in ("None", "True", "False"):
            return self.const({"None": None, "True": True,
                               "False": False}[name])
        return ast.Name(id=self.text(n["id"]), ctx=ast.Load())

    def e_List(self, n):
        return ast.List(elts=[self.expr(e) for e in n["elts"]],
                        ctx=ast.Load())

    def e_Tuple(self, n):
        return ast.Tuple(elts=[self.expr(e) for e in n["elts"]],
                         ctx=ast.Load())


def convert(tree, path, modname):
    """JSON tree -> (code object, list of functions defined)."""
    c = Convert(path, modname)
    mod = c.module(tree)
    code = compile(mod, path, "exec", dont_inherit=True)
    return code, c.functions
