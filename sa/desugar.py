"""Source-level equivalences applied before the analysis: counted while loops are for loops."""
import ast


def own(stmts):
    """statements of a loop body that belong to this loop"""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            todo.extend(n.orelse)
            # inner loops keep their own continue/break
            todo.extend(x for x in ast.walk(n) if isinstance(x, (ast.Return,)))
            continue
        todo.extend(ast.iter_child_nodes(n))


def is_inc(s, v):
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == v and isinstance(s.value, ast.Constant) and s.value.value == 1:
        return True
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v and isinstance(s.value, ast.BinOp) and \
        isinstance(s.value.op, ast.Add) and (isinstance(s.value.left, ast.Name) and s.value.left.id == v and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1)


OKE = (ast.Name, ast.Constant, ast.Attribute, ast.Subscript, ast.BinOp, ast.operator, ast.Load, ast.Call, ast.UnaryOp, ast.unaryop)


def counted(w, fn):
    """(variable, bound) of a counted loop"""
    if w.orelse or not isinstance(w.test, ast.Compare) or len(w.test.ops) != 1 or len(w.body) < 2:
        return None
    l, op, r = w.test.left, w.test.ops[0], w.test.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        l, r = r, l
        op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not isinstance(op, (ast.Lt, ast.LtE)) or not isinstance(l, ast.Name):
        return None
    v = l.id
    if not is_inc(w.body[-1], v):
        return None
    body = w.body[:-1]
    if any(isinstance(x, ast.Continue) for x in own(body)):
        return None
    stored = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
    if v in stored:
        return None
    for x in ast.walk(r):
        if not isinstance(x, OKE):
            return None
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "int", "min", "max")):
            return None
        if isinstance(x, ast.Name) and x.id in stored | {v}:
            return None
    # a bound that looks into a container must not see it change
    if any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(r)):
        ns = {x.id for x in ast.walk(r) if isinstance(x, ast.Name)} - {"len", "int", "min", "max"}
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and any(isinstance(y, ast.Name) and y.id in ns for y in ast.walk(x.func.value)):
                    return None
                if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load) and any(isinstance(y, ast.Name) and y.id in ns for y in ast.walk(x)):
                    if isinstance(x, ast.Attribute) or "self" in ns:
                        return None
                if isinstance(x, ast.Delete):
                    return None
    # the variable must not be read after the loop
    inside = {id(x) for x in ast.walk(w)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in inside:
            if not any(isinstance(u, ast.While) and u is not w and any(y is x for y in ast.walk(u)) and counted_shape(u) == v for u in ast.walk(fn)) and \
                    not any(isinstance(u, ast.For) and any(isinstance(t, ast.Name) and t.id == v for t in ast.walk(u.target)) and any(y is x for y in ast.walk(u)) for u in ast.walk(fn)):
                return None
    return v, r if isinstance(op, ast.Lt) else ast.BinOp(r, ast.Add(), ast.Constant(1))


def counted_shape(u):
    for s in (u.body[-1:] or []):
        for n in ast.walk(u.test):
            if isinstance(n, ast.Name) and is_inc(s, n.id):
                return n.id
    return None


class D(ast.NodeTransformer):
    def __init__(self, fn):
        self.fn = fn

    def visit_FunctionDef(self, n):
        return n if n is not self.fn else self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)
        # while True: if c: break; rest  ==  while not c: rest
        if isinstance(n.test, ast.Constant) and n.test.value and not n.orelse and len(n.body) > 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and \
                len(n.body[0].body) == 1 and isinstance(n.body[0].body[0], ast.Break):
            n = ast.copy_location(ast.While(ast.copy_location(ast.UnaryOp(ast.Not(), n.body[0].test), n.body[0].test), n.body[1:], []), n)
        c = counted(n, self.fn)
        if c is None:
            return n
        v, hi = c
        it = ast.Call(ast.Name("range", ast.Load()), [ast.Name(v, ast.Load()), hi], [])
        r = ast.For(ast.Name(v, ast.Store()), it, n.body[:-1], [])
        return ast.fix_missing_locations(ast.copy_location(r, n))


def apply(tree):
    for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        if any(isinstance(x, ast.While) for x in ast.walk(fn)):
            D(fn).visit(fn)
    return tree
