"""Development tool: behaviour-preserving rewrites of the whole package, to see that the checks stay quiet.

usage: refactor.py OUT transform[,transform...] [--only func-substring] [--list]
Writes a rewritten copy of /repo/lingam (and its tests' view of it) to OUT/lingam.
"""
import ast
import copy
import os
import shutil
import sys

CTR = [0]


def fresh(p="tmp"):
    CTR[0] += 1
    return f"{p}_{CTR[0]}"


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def own_walk(fn):
    """nodes of a function without nested scopes' bodies"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def blocks(fn):
    for n in [fn] + [x for x in own_walk(fn)]:
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def has_nested(fn):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for x in own_walk(fn))


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())


def local_names(fn):
    st = {x.id for x in own_walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    gl = {n for x in own_walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    return st - gl - params(fn)


def call(fn, *a, **k):
    return ast.Call(fn, list(a), [ast.keyword(x, y) for x, y in k.items()])


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def neg(t):
    inv = {ast.Lt: ast.GtE, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in (ast.In, ast.NotIn, ast.Is, ast.IsNot):
        return ast.Compare(t.left, [inv[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


PUREFN = {"len", "range", "abs", "min", "max", "sum", "list", "tuple", "set", "int", "float", "str", "isinstance", "sorted", "zip", "enumerate"}
PURENP = {"zeros", "ones", "array", "abs", "sum", "mean", "dot", "arange", "eye", "where", "argmin", "argmax", "argsort", "nonzero", "isnan", "any", "all", "diag", "tril", "transpose", "log", "sqrt", "exp", "max", "min", "delete", "setdiff1d", "hstack", "concatenate", "cov", "corrcoef", "var", "std", "median", "argwhere", "unique"}


def pure(e):
    """no effect, whatever the values"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in PUREFN:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np" and f.attr in PURENP:
                continue
            return False
        if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return False
    return True


# ------------------------------------------------------------------ transforms of one function (in place)
def rename_locals(fn, cx):
    loc = {n for n in local_names(fn) if not n.startswith("__")}
    comp = {x.id for n in ast.walk(fn) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    inner = {a for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for a in params(n)}
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)) or any(isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("locals", "eval", "exec", "vars") for x in ast.walk(fn)):
        return
    m = {n: n + "_renamed" for n in loc - inner}
    m.update({n: n + "_it" for n in comp - loc - inner - params(fn)})
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
        if isinstance(x, ast.ExceptHandler) and x.name in m:
            x.name = m[x.name]


def temps(fn, cx):
    """x = e -> t = e; x = t   and   return e -> t = e; return t"""
    for n, f, b in list(blocks(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh()
                out.append(ast.Assign([store(t)], s.value))
                s.value = load(t)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and not isinstance(s.value, (ast.Name, ast.Constant)) and not isinstance(s.targets[0], ast.Tuple):
                t = fresh()
                out.append(ast.Assign([store(t)], s.value))
                s.value = load(t)
            elif isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                t = fresh("cond")
                out.append(ast.Assign([store(t)], s.test))
                s.test = load(t)
            elif isinstance(s, ast.For) and isinstance(s.iter, ast.Call):
                t = fresh("it")
                out.append(ast.Assign([store(t)], s.iter))
                s.iter = load(t)
            out.append(s)
        b[:] = out


def temp_args(fn, cx):
    """f(g(x), y) -> t = g(x); f(t, y): first argument, evaluated first"""
    for n, f, b in list(blocks(fn)):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.func, (ast.Name, ast.Attribute)) \
                    and pure(s.value.func) and not isinstance(s.value.args[0], (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)):
                t = fresh("arg")
                out.append(ast.Assign([store(t)], s.value.args[0]))
                s.value.args[0] = load(t)
            out.append(s)
        b[:] = out


def inline(fn, cx):
    """t = e; next statement uses t exactly once, nowhere else -> inlined"""
    if has_nested(fn):
        inner = set().union(*[names(x) for x in own_walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))])
    else:
        inner = set()
    cnt = {}
    for x in own_walk(fn):
        if isinstance(x, ast.Name):
            cnt.setdefault(x.id, []).append(x)
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.targets[0].id
                uses = cnt.get(v, [])
                if v not in inner and v not in params(fn) and len(uses) == 2 and isinstance(t, (ast.Assign, ast.Return, ast.Expr)) and pure(s.value):
                    hit = [x for x in ast.walk(t) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                    if len(hit) == 1 and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.Lambda)) for x in ast.walk(t)):
                        class R(ast.NodeTransformer):
                            def visit_Name(self, y):
                                return s.value if y is hit[0] else y
                        b[i + 1] = R().visit(t)
                        del b[i]
                        continue
            i += 1


def if_invert(fn, cx):
    for x in list(own_walk(fn)):
        if isinstance(x, ast.If) and x.orelse and not (len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            x.test, x.body, x.orelse = neg(x.test), x.orelse, x.body


def if_pass(fn, cx):
    for x in list(own_walk(fn)):
        if isinstance(x, ast.If) and not x.orelse:
            x.test, x.body, x.orelse = neg(x.test), [ast.Pass()], x.body


def ifexp_invert(fn, cx):
    for x in ast.walk(fn):
        if isinstance(x, ast.IfExp):
            x.test, x.body, x.orelse = neg(x.test), x.orelse, x.body


def ternary_to_if(fn, cx):
    for n, f, b in list(blocks(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                out.append(ast.If(s.value.test, [ast.Assign(copy.deepcopy(s.targets), s.value.body)], [ast.Assign(s.targets, s.value.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                out.append(ast.If(s.value.test, [ast.Return(s.value.body)], []))
                out.append(ast.Return(s.value.orelse))
            else:
                out.append(s)
        b[:] = out


def if_to_ternary(fn, cx):
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and \
                    ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]) and len(s.body[0].targets) == 1:
                b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))


def guard(fn, cx):
    """for ...: ...; if c: body   ->  if not c: continue; body"""
    for x in list(own_walk(fn)):
        if isinstance(x, (ast.For,)) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse:
            i = x.body[-1]
            x.body[-1:] = [ast.If(neg(i.test), [ast.Continue()], [])] + i.body


def unguard(fn, cx):
    """if c: continue; rest -> if not c: rest"""
    for x in list(own_walk(fn)):
        if isinstance(x, (ast.For, ast.While)):
            for k, s in enumerate(x.body):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and k + 1 < len(x.body):
                    x.body[k:] = [ast.If(neg(s.test), x.body[k + 1:], [])]
                    break


def single_return(fn, cx):
    """if c: return a ; ...; return b (tail) -> else branch"""
    b = fn.body
    for k, s in enumerate(b):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and k + 1 < len(b) and isinstance(b[-1], ast.Return):
            b[k:] = [ast.If(s.test, s.body, b[k + 1:])]
            break


def loop_conts(body):
    """continue/break belonging to this loop"""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Continue, ast.Break)):
            yield n
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def for_to_while(fn, cx):
    for n, f, b in list(blocks(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") == "range" and len(s.iter.args) in (1, 2) \
                    and not any(isinstance(c, ast.Continue) for c in loop_conts(s.body)) and not s.orelse \
                    and not any(isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Store) for y in s.body for x in ast.walk(y)) \
                    and not used_after(fn, s, s.target.id):
                lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                t = fresh("stop")
                out.append(ast.Assign([store(t)], s.iter.args[-1]))
                out.append(ast.Assign([store(s.target.id)], lo))
                out.append(ast.While(ast.Compare(load(s.target.id), [ast.Lt()], [load(t)]), s.body + [ast.AugAssign(store(s.target.id), ast.Add(), ast.Constant(1))], []))
            else:
                out.append(s)
        b[:] = out


def used_after(fn, loop, v):
    """is the loop variable read outside the loop"""
    inside = {id(x) for x in ast.walk(loop)}
    return any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(fn)) or \
        any(isinstance(x, ast.Lambda) for x in ast.walk(loop))


def append_to_comp(fn, cx):
    """r = []; for x in it: r.append(e)  ->  r = [e for x in it]"""
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and \
                    isinstance(t, ast.For) and not t.orelse and len(t.body) == 1 and not any(used_after(fn, t, v) for v in names(t.target)):
                r = s.targets[0].id
                e, cond = t.body[0], None
                if isinstance(e, ast.If) and not e.orelse and len(e.body) == 1:
                    cond, e = e.test, e.body[0]
                if isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == "append" and \
                        getattr(e.value.func.value, "id", "") == r and r not in names(e.value.args[0]) | (names(cond) if cond else set()):
                    b[i] = ast.Assign(s.targets, ast.ListComp(e.value.args[0], [ast.comprehension(t.target, t.iter, [cond] if cond else [], 0)]))
                    del b[i + 1]
            i += 1


def comp_to_append(fn, cx):
    loc = local_names(fn) | params(fn)
    for n, f, b in list(blocks(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                g = s.value.generators[0]
                tv = names(g.target)
                r = s.targets[0].id
                if not tv & loc and r not in names(s.value):
                    ap = ast.Expr(call(ast.Attribute(load(r), "append", ast.Load()), s.value.elt))
                    body = [ap]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    out.append(ast.Assign([store(r)], ast.List([], ast.Load())))
                    out.append(ast.For(g.target, g.iter, body, []))
                    continue
            out.append(s)
        b[:] = out


def enum_to_range(fn, cx):
    for x in list(own_walk(fn)):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and getattr(x.iter.func, "id", "") == "enumerate" and len(x.iter.args) == 1 and isinstance(x.iter.args[0], ast.Name) \
                and isinstance(x.target, ast.Tuple) and x.iter.args[0].id not in {y.id for s in x.body for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}:
            i, v = x.target.elts
            seq = x.iter.args[0].id
            x.iter = call(load("range"), call(load("len"), load(seq)))
            x.target = i
            x.body.insert(0, ast.Assign([v], ast.Subscript(load(seq), load(i.id), ast.Load())))


def flip_compare(fn, cx):
    fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in fl and pure(x):
            x.left, x.comparators, x.ops = x.comparators[0], [x.left], [fl[type(x.ops[0])]()]


def demorgan(fn, cx):
    class R(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [neg(v) for v in n.values]))
    for s in fn.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.If, ast.While)):
                x.test = R().visit(x.test)


def nested_if(fn, cx):
    """if a and b: body -> if a: if b: body"""
    for x in list(own_walk(fn)):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            vs = x.test.values
            x.body = [ast.If(vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), x.body, [])]
            x.test = vs[0]


def merge_if(fn, cx):
    for x in list(own_walk(fn)):
        if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            x.test = ast.BoolOp(ast.And(), [x.test, x.body[0].test])
            x.body = x.body[0].body


def elif_to_nested(fn, cx):
    pass


def spell(fn, cx):
    """other spellings of the same thing"""
    class R(ast.NodeTransformer):
        def visit_List(self, n):
            self.generic_visit(n)
            if not n.elts and isinstance(n.ctx, ast.Load):
                return call(load("list"))
            return n

        def visit_Dict(self, n):
            self.generic_visit(n)
            if not n.keys:
                return call(load("dict"))
            return n

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "range" and len(n.args) == 1:
                n.args.insert(0, ast.Constant(0))
            if isinstance(n.func, ast.Attribute) and getattr(n.func.value, "id", "") == "np" and n.func.attr in ("zeros", "ones", "empty") and n.args:
                if isinstance(n.args[0], ast.List):
                    n.args[0] = ast.Tuple(n.args[0].elts, ast.Load())
                elif isinstance(n.args[0], ast.Tuple):
                    n.args[0] = ast.List(n.args[0].elts, ast.Load())
            return n

        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            return n
    R().visit(fn)


def np_spell(fn, cx):
    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and getattr(n.func.value, "id", "") == "np" and len(n.args) == 1:
                if n.func.attr == "abs" and not n.keywords:
                    n.func.attr = "absolute"
                elif n.func.attr == "dot":
                    pass
            return n

        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == "T" and isinstance(n.ctx, ast.Load) and cx.get("np"):
                return call(ast.Attribute(load("np"), "transpose", ast.Load()), n.value)
            return n
    R().visit(fn)


def mod_of(s):
    """(names read, names written, effects?) of a simple statement"""
    if not isinstance(s, ast.Assign) or not pure(s.value) or not all(isinstance(t, ast.Name) for t in s.targets):
        return None
    return names(s.value), {t.id for t in s.targets}


def reorder(fn, cx):
    """swap adjacent independent simple assignments (values built without effects)"""
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            p, q = mod_of(b[i]), mod_of(b[i + 1])
            if p and q and not (p[1] & (q[0] | q[1])) and not (q[1] & p[0]):
                b[i], b[i + 1] = b[i + 1], b[i]
                i += 2
            else:
                i += 1


def aug(fn, cx):
    """i += const -> i = i + const"""
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                b[i] = ast.Assign([store(s.target.id)], ast.BinOp(load(s.target.id), s.op, s.value))


def split_tuple(fn, cx):
    for n, f, b in list(blocks(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
                t = fresh("pair")
                out.append(ast.Assign([store(t)], s.value))
                ok = all(isinstance(e, ast.Name) for e in s.targets[0].elts)
                if ok:
                    for k, e in enumerate(s.targets[0].elts):
                        out.append(ast.Assign([e], ast.Subscript(load(t), ast.Constant(k), ast.Load())))
                else:
                    out[-1] = s
                continue
            out.append(s)
        b[:] = out


def noop(fn, cx):
    fn.body.append(ast.Pass()) if not isinstance(fn.body[-1], ast.Return) else fn.body.insert(len(fn.body) - 1, ast.Pass())
    for n, f, b in list(blocks(fn)):
        b.insert(1 if len(b) > 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0, ast.Assign([store("unused_marker")], ast.Constant(0)))


def hoist(fn, cx):
    """range bound of an inner loop computed before the outer loop when its names are not assigned there"""
    for n, f, b in list(blocks(fn)):
        out = []
        for s in b:
            if isinstance(s, (ast.For, ast.While)):
                asg = {y.id for x in ast.walk(s) for y in [x] if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                for x in s.body:
                    if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and getattr(x.iter.func, "id", "") == "range" and len(x.iter.args) == 1 and pure(x.iter) \
                            and not names(x.iter) & asg and "shape" in ast.unparse(x.iter):
                        t = fresh("bound")
                        out.append(ast.Assign([store(t)], x.iter.args[0]))
                        x.iter.args[0] = load(t)
            out.append(s)
        b[:] = out


def expr_reads(e, loc):
    """local names an expression reads (comprehension variables excluded)"""
    out = set()

    def go(x, hid):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            h = set(hid)
            for g in x.generators:
                go(g.iter, h)
                h = h | {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for c in g.ifs:
                    go(c, h)
            for y in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                go(y, h)
            return
        if isinstance(x, ast.Lambda):
            go(x.body, hid | {a.arg for a in x.args.args})
            return
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load) and x.id not in hid and x.id in loc:
                out.add(x.id)
            return
        for y in ast.iter_child_nodes(x):
            go(y, hid)
    go(e, set())
    return out


def targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Flow:
    """definite assignment and upward exposed reads"""
    def __init__(self, loc, mark=None):
        self.loc, self.mark, self.at = loc, mark, None

    def run(self, body, asg):
        """asg: definitely assigned before; returns (after or None when control leaves, exposed reads)"""
        ex = set()
        for s in body:
            if s is self.mark and asg is not None:
                self.at = set(asg) if self.at is None else self.at & asg
            if asg is None:
                return None, ex
            R = lambda e: expr_reads(e, self.loc) - asg if e is not None else set()
            if isinstance(s, ast.Assign):
                ex |= R(s.value)
                for t in s.targets:
                    ex |= R(t)
                    asg = asg | targets(t)
            elif isinstance(s, ast.AugAssign):
                ex |= R(s.value) | R(s.target)
                if isinstance(s.target, ast.Name):
                    ex |= {s.target.id} - asg if s.target.id in self.loc else set()
                    asg = asg | {s.target.id}
            elif isinstance(s, ast.AnnAssign):
                ex |= R(s.value)
                asg = asg | targets(s.target)
            elif isinstance(s, ast.If):
                ex |= R(s.test)
                a1, e1 = self.run(s.body, asg)
                a2, e2 = self.run(s.orelse, asg)
                ex |= e1 | e2
                asg = a2 if a1 is None else a1 if a2 is None else a1 & a2
            elif isinstance(s, ast.For):
                ex |= R(s.iter)
                _, e = self.run(s.body, asg | targets(s.target))
                ex |= e
            elif isinstance(s, ast.While):
                ex |= R(s.test)
                _, e = self.run(s.body, asg)
                ex |= e
            elif isinstance(s, (ast.Return, ast.Raise)):
                for y in ast.iter_child_nodes(s):
                    ex |= R(y)
                asg = None
            elif isinstance(s, (ast.Continue, ast.Break)):
                asg = None
            elif isinstance(s, ast.With):
                for it in s.items:
                    ex |= R(it.context_expr)
                    if it.optional_vars is not None:
                        asg = asg | targets(it.optional_vars)
                asg, e = self.run(s.body, asg)
                ex |= e
            elif isinstance(s, ast.Try):
                a1, e1 = self.run(s.body, asg)
                ex |= e1
                for h in s.handlers:
                    _, e = self.run(h.body, asg | ({h.name} if h.name else set()))
                    ex |= e
                _, e = self.run(s.orelse, a1 if a1 is not None else asg)
                ex |= e
                _, e = self.run(s.finalbody, asg)
                ex |= e
            else:
                for y in ast.iter_child_nodes(s):
                    ex |= R(y)
        return asg, ex


def extract(fn, cx, size=(2, 6), pick=0):
    """move a run of statements into a new helper"""
    if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Delete)) for x in ast.walk(fn) if x is not fn):
        return
    meth = cx.get("cls") is not None and fn.args.args and fn.args.args[0].arg == "self"
    if cx.get("cls") is not None and not meth:
        return
    cand = []
    loc = local_names(fn) | params(fn)
    for n, f, b in blocks(fn):
        for i in range(len(b)):
            for j in range(i + size[0], min(len(b), i + size[1]) + 1):
                run = b[i:j]
                if any(isinstance(x, (ast.Return, ast.Continue, ast.Break, ast.FunctionDef, ast.Lambda, ast.Try, ast.With, ast.Import, ast.ImportFrom)) for s in run for x in ast.walk(s)):
                    continue
                if i == 0 and isinstance(run[0], ast.Expr) and isinstance(run[0].value, ast.Constant):
                    continue
                if any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "super" for s in run for x in ast.walk(s)):
                    continue
                cand.append((b, i, j))
    if not cand:
        return
    k0 = (pick * 7919 + len(fn.name) * 31) % len(cand)
    for b, i, j in cand[k0:] + cand[:k0]:
        run = b[i:j]
        F = Flow(loc, run[0])
        F.run(fn.body, set(params(fn)))
        before = F.at
        if before is None:
            continue
        after, need = Flow(loc).run(run, set())
        if after is None or not need <= before:
            continue

        inside = {id(x) for s in run for x in ast.walk(s)}
        later = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}

        wr_targets = set()
        for s in run:
            for x in ast.walk(s):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.For)) else []):
                    wr_targets |= targets(t)
        outs = sorted(wr_targets & (later | need))
        cond = {o for o in outs if o not in after}
        if not cond <= before:
            continue
        need = (need | cond) - {"self"}
        break
    else:
        return
    h = "_" + fresh(fn.name.strip("_") + "_" + (cx["cls"].name.lower() if cx.get("cls") is not None else "step"))
    args = [("self")] * bool(meth) + sorted(need)
    ret = []
    if outs:
        ret = [ast.Return(ast.Tuple([load(o) for o in outs], ast.Load()) if len(outs) > 1 else load(outs[0]))]
    hf = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), run + ret or [ast.Pass()], [], None, None, [])
    fnx = ast.Attribute(load("self"), h, ast.Load()) if meth else load(h)
    c = call(fnx, *[load(a) for a in sorted(need)])
    if outs:
        b[i:j] = [ast.Assign([ast.Tuple([store(o) for o in outs], ast.Store()) if len(outs) > 1 else store(outs[0])], c)]
    else:
        b[i:j] = [ast.Expr(c)]
    cx["new"].append((h, hf))


def extract1(fn, cx):
    extract(fn, cx, (2, 6), 1)


def extract2(fn, cx):
    extract(fn, cx, (1, 3), 2)


def extract3(fn, cx):
    extract(fn, cx, (3, 12), 3)


def extract_expr(fn, cx):
    """an assigned pure expression becomes a call of a one-line helper"""
    meth = cx.get("cls") is not None and fn.args.args and fn.args.args[0].arg == "self"
    if cx.get("cls") is not None and not meth:
        return
    if any(isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom)) for x in ast.walk(fn) if x is not fn):
        return
    loc = local_names(fn) | params(fn)
    k = 0
    for n, f, b in list(blocks(fn)):
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call, ast.Subscript)) and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp, ast.SetComp)) for x in ast.walk(s.value)) \
                    and not any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "super" for x in ast.walk(s.value)) and not (names(s.value) - loc) & cx["inner"]:
                k += 1
                if k % 3 != 1:
                    continue
                used = sorted(expr_reads(s.value, loc) - {"self"})
                h = "_" + fresh(fn.name.strip("_") + "_expr_" + (cx["cls"].name.lower() if cx.get("cls") is not None else "step"))
                cx["new"].append((h, ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in ["self"] * bool(meth) + used], None, [], [], None, []), [ast.Return(s.value)], [], None, None, [])))
                s.value = call(ast.Attribute(load("self"), h, ast.Load()) if meth else load(h), *[load(a) for a in used])


T = {k: v for k, v in list(globals().items()) if callable(v) and k in (
    "rename_locals temps temp_args inline if_invert if_pass ifexp_invert ternary_to_if if_to_ternary guard unguard single_return for_to_while append_to_comp comp_to_append "
    "enum_to_range flip_compare demorgan nested_if merge_if spell np_spell reorder aug split_tuple noop hoist extract extract1 extract2 extract3 extract_expr").split()}


def rewrite(src, tnames, only, inner=False):
    tree = ast.parse(src)
    ismod = {a.asname or a.name for st in ast.walk(tree) if isinstance(st, (ast.Import, ast.ImportFrom)) for a in st.names}

    def do(fn, cls, host):
        q = (cls.name + "." if cls else "") + fn.name
        if only and not any(o in q for o in only):
            return []
        inn = {x.name for x in own_walk(fn) if isinstance(x, ast.FunctionDef)}
        cx = dict(cls=cls, new=[], np="np" in ismod, inner=inn)
        for t in tnames:
            if t == "rename_private":
                continue
            T[t](fn, cx)
            ast.fix_missing_locations(fn)
            # fresh positions so later passes can order statements
            new = ast.parse(ast.unparse(fn)).body[0]
            fn.__dict__.update(new.__dict__)
        return [h for _, h in cx["new"]]

    for owner in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)]:
        out = []
        for st in owner.body:
            out.append(st)
            if isinstance(st, ast.FunctionDef):
                if any(isinstance(d, (ast.Name, ast.Attribute)) and "property" in ast.unparse(d) for d in st.decorator_list):
                    continue
                out += do(st, owner if isinstance(owner, ast.ClassDef) else None, owner)
        owner.body = out
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + "\n"


def rename_private(root):
    """rename the private methods and fields of every class consistently over the package"""
    import re
    files = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if f.endswith(".py")]
    srcs = {f: open(f).read() for f in files}
    allsrc = "\n".join(srcs.values())
    meths = set(re.findall(r"def (_[a-z]\w*)\(", allsrc))
    fields = set(re.findall(r"self\.(_[a-zA-Z]\w*)", allsrc))
    params_ = set(re.findall(r"\b(_[a-z]\w*)\s*=", allsrc)) - fields
    mods = {os.path.basename(f)[:-3] for f in files}
    m = {n: n + "_x" for n in (meths | fields) - params_ - mods if not n.startswith("__")}
    for f, s in srcs.items():
        s = re.sub(r"(?<![\w])(_[a-zA-Z]\w*)", lambda k: m.get(k.group(1), k.group(1)), s)
        open(f, "w").write(s)


def build(out, tnames, only=(), root="/repo"):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(os.path.join(root, "lingam"), os.path.join(out, "lingam"), ignore=shutil.ignore_patterns("__pycache__"))
    for d, _, fs in os.walk(os.path.join(out, "lingam")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                s = open(p).read()
                CTR[0] = 0
                r = rewrite(s, [t for t in tnames if t != "rename_private"], only)
                open(p, "w").write(r)
    if "rename_private" in tnames:
        rename_private(os.path.join(out, "lingam"))


if __name__ == "__main__":
    if "--list" in sys.argv:
        print(" ".join(sorted(T) + ["rename_private"]))
        sys.exit()
    only = [sys.argv[sys.argv.index("--only") + 1]] if "--only" in sys.argv else []
    build(sys.argv[1], sys.argv[2].split(","), only)
