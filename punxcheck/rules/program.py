"""C37: no path reaches an undefined name."""
from ..core import *  # noqa: F401,F403
from ..preds import consistent
from ..sweep import BAD, describe, sweep

RULE = "defined"
TEXT = (
    "on every feasible path of every function, each local variable used is assigned, each global, module attribute, instance attribute and method used exists, "
    "and each call of a function of the program passes arguments which it takes"
)


def bad_events(r):
    for e in r.events:
        if e.kind in BAD and consistent(e.guard) != F:
            yield e


def C37(ctx, rep):
    rep.rule(RULE, TEXT)
    A, runs = ctx.get("sweep", sweep)
    seen = set()
    for f, r in runs:
        rep.analysed(r)
        bad = list(bad_events(r))
        rep.ob(RULE, f.where(), not bad, bad[0].where() if bad else None, "; ".join(describe(e) for e in bad[:5]))
        seen.update(f for e in bad for f in e.stack[-1:])
    rep.floor("functions analysed", len(runs), 150)
    # with the types known from the entry points
    W = ctx.validation()
    rep.analysed(W.r)
    for e in bad_events(W.r):
        if e.stack and e.stack[-1] not in seen:
            rep.ob(RULE, "%s (from validate)" % e.stack[-1].where(), False, e.where(), describe(e))
    # module level
    for m, evs in sorted(A.I.modev.items()):
        bad = [e for e in evs if e.kind in BAD]
        rep.ob(RULE, "module " + m, not bad, bad[0].where() if bad else None, "; ".join(describe(e) for e in bad[:5]))
