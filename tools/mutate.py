"""Development tool: plant small edits in memory and list the ones a rule does not report.

usage: mutate.py PROP entry [entry...] [-v]   (entry: Class.method, function or module:function; the whole call tree with -t)
"""
import ast
import copy
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.common import Analysis
from sa.report import Result
from sa.registry import RULES
from sa.conform import find_entry

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
ATTR = {"argmax": "argmin", "argmin": "argmax", "max": "min", "min": "max", "any": "all", "all": "any", "sum": "mean", "mean": "sum", "zeros": "ones", "append": None}


def mutants(fn):
    """yield (description, new function node)"""
    nodes = list(ast.walk(fn))
    doc = ast.get_docstring(fn)
    names = [a.arg for a in fn.args.args if a.arg != "self"]
    idx = {id(n): i for i, n in enumerate(nodes)}

    def mut(n, f, d):
        c = copy.deepcopy(fn)
        m = list(ast.walk(c))[idx[id(n)]]
        f(m, c)
        ast.fix_missing_locations(c)
        return (f"L{getattr(n, 'lineno', 0)} {d}", c)
    for n in nodes:
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield mut(n, lambda m, c, o=o: m.ops.__setitem__(0, o()), f"{ast.unparse(n)} -> {o.__name__}")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield mut(n, lambda m, c: setattr(m, "op", BIN[type(m.op)]()), f"{ast.unparse(n)[:60]} -> {BIN[type(n.op)].__name__}")
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield mut(n, lambda m, c: setattr(m, "value", m.value + 1), f"const {n.value} -> +1")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield mut(n, lambda m, c: setattr(m, "value", not m.value), f"const {n.value} flipped")
        if isinstance(n, ast.BoolOp):
            yield mut(n, lambda m, c: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()), f"and/or {ast.unparse(n)[:60]}")
        if isinstance(n, ast.If) and not isinstance(n.body[0], ast.Raise):
            yield mut(n, lambda m, c: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)), f"negate if {ast.unparse(n.test)[:60]}")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            yield mut(n, lambda m, c: m.slice.elts.reverse(), f"swap index {ast.unparse(n)[:60]}")
        if isinstance(n, ast.Slice):
            if n.upper is not None:
                yield mut(n, lambda m, c: setattr(m, "upper", ast.BinOp(m.upper, ast.Sub(), ast.Constant(1))), f"slice upper -1 {ast.unparse(n)}")
            if n.lower is not None:
                yield mut(n, lambda m, c: setattr(m, "lower", ast.BinOp(m.lower, ast.Add(), ast.Constant(1))), f"slice lower +1 {ast.unparse(n)}")
        if isinstance(n, ast.Attribute) and ATTR.get(n.attr):
            yield mut(n, lambda m, c: setattr(m, "attr", ATTR[m.attr]), f"{ast.unparse(n)[:40]} -> {ATTR[n.attr]}")
        if isinstance(n, ast.Attribute) and n.attr == "T":
            def dropT(m, c):
                for p in ast.walk(c):
                    for f, v in ast.iter_fields(p):
                        if v is m:
                            setattr(p, f, m.value)
                        elif isinstance(v, list) and m in v:
                            v[v.index(m)] = m.value
            yield mut(n, dropT, f"drop .T {ast.unparse(n)[:40]}")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            for o in names:
                if o != n.id and (o[:1].isupper() or o.endswith("list")) == (n.id[:1].isupper() or n.id.endswith("list")):
                    yield mut(n, lambda m, c, o=o: setattr(m, "id", o), f"{n.id} -> {o}")
                    break
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                yield mut(n, lambda m, c, i=i: m.keywords.pop(i), f"drop kw {k.arg} of {ast.unparse(n.func)[:40]}")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("abs",) and len(n.args) == 1:
                def unwrap(m, c):
                    for p in ast.walk(c):
                        for f, v in ast.iter_fields(p):
                            if v is m:
                                setattr(p, f, m.args[0])
                            elif isinstance(v, list) and m in v:
                                v[v.index(m)] = m.args[0]
                yield mut(n, unwrap, f"drop abs {ast.unparse(n)[:40]}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def un(m, c):
                for p in ast.walk(c):
                    for f, v in ast.iter_fields(p):
                        if v is m:
                            setattr(p, f, m.operand)
                        elif isinstance(v, list) and m in v:
                            v[v.index(m)] = m.operand
            yield mut(n, un, f"drop unary {ast.unparse(n)[:40]}")
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr,)) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and sum(isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store) and q.id == s.targets[0].id for q in nodes) < 2 and s.targets[0].id not in names:
                        continue
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") == "check_array":
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)):
                        def rm(m, c, field=field, i=i):
                            getattr(m, field)[i] = ast.Pass()
                        yield mut(n, rm, f"L{s.lineno} delete {ast.unparse(s)[:60]}")


def tree(A, entry):
    """functions reached from an entry"""
    cls, f = find_entry(A.prog, entry)
    run = A.run(cls, f)
    out = {f}
    for e in run.events:
        if e.kind == "icall":
            out.add(e.d["fn"])
    return out


def work(job):
    f, d, node = FS[job[0]][0], *FS[job[0]][1][job[1]]
    orig = f.node
    f.node = node
    f._facts = {}
    B = Analysis.__new__(Analysis)
    B.__dict__.update(A.__dict__)
    B.cache = {}
    B.failed = []
    B.__dict__.pop("_whole", None)
    R = Result(PROPS, "quick")
    try:
        for p in PROPS.split(","):
            RULES[p](B, R)
        st = "KILL" if R.violations else ("und" if any(o[2] == "undecided" for o in R.obligations) else "SURV")
    except Exception as ex:
        st = "ERR " + type(ex).__name__ + str(ex)[:80]
    f.node = orig
    f._facts = {}
    return st, f"{f.qual} {d}", "" if st != "und" else "| " + next((o[1][:50] + ": " + o[3] for o in R.obligations if o[2] == "undecided"), "")[:260]


if __name__ == "__main__":
    import multiprocessing
    PROPS = sys.argv[1]
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    A = Analysis("/repo")
    fs = []
    for a in args:
        for f in (tree(A, a) if "-t" in sys.argv else {find_entry(A.prog, a)[1]}):
            if f not in fs and not isinstance(f.node, ast.Lambda):
                fs.append(f)
    A.cache = {}
    from sa.conform import specs_for, comparable
    sp = specs_for(A)
    names = {f.name for f in fs} | {a.split(".")[-1] for a in args}
    cl = {c.name for f in fs if f.cls for c in A.prog.classes.values() if f.cls in c.mro} if hasattr(A.prog, "classes") else None
    A._specs = [s for s in sp if any(e.split(".")[-1].split(":")[-1] in names for e in s["entries"] + (s["part_of"] or []))]
    FS = [(f, list(mutants(f.node))) for f in fs]
    jobs = [(i, j) for i, (f, ms) in enumerate(FS) for j in range(len(ms))]
    tot = kill = 0
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for st, d, why in pool.imap(work, jobs, chunksize=4):
            tot += 1
            kill += st == "KILL"
            if st != "KILL" or "-v" in sys.argv:
                print(st, d, why, flush=True)
    print(f"{kill}/{tot} reported")
