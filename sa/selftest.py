"""Thorough tier: repeat the rule with a deeper inlining bound and require the same verdicts."""
from .common import Analysis
from .report import Result


class Deep(Analysis):
    depth = 40

    def run(self, cls, f, *a, **kw):
        kw.setdefault("max_depth", 40)
        return super().run(cls, f, *a, **kw)


def run(prop, A, R, root):
    from .registry import RULES
    D = Deep(root)
    R2 = Result(prop, "thorough")
    RULES[prop](D, R2)
    have = {(v["rule"], v["key"]) for v in R.violations}
    for v in R2.violations:
        if (v["rule"], v["key"]) not in have:
            R.violations.append(v)
    R.notes.append(f"deep pass: {len(R2.obligations)} obligations, {len(D.n_functions)} functions, {D.n_callsites} call sites, "
                   f"{len(R2.violations)} violated")
    A.n_runs += D.n_runs
    A.n_callsites += D.n_callsites
    A.n_functions |= D.n_functions
