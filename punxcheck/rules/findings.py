"""The findings of a validation (C18 to C28): table of guarded findings against the reference table."""
from ..core import *  # noqa: F401,F403
from ..compare import example

RULE = "findings-table"
TEXT = (
    "the table of findings of validate() (test, status, address, for each of which catalogued elements, and the exact "
    "condition) computed from the source equals the reference table in punxcheck/spec/spec_validate.py"
)


def decide(ctx, rep, pid, least):
    W = ctx.validation()
    rep.rule(RULE, TEXT)
    rep.analysed(W.r)
    ctx.extra.append("every catalogued item is filed under its own address, and classpaths of groups are \"\", \"/NX...\" or non-NeXus (C17)")
    mine = [r for r in W.spec if pid in W.spec_props(r)] if pid != "C18" else W.spec
    keys = {r.key() for r in mine}
    bad = {}
    for d in W.diffs:
        if pid in W.props(d):
            bad.setdefault(d.key, []).append(d)
    for k in sorted(keys - set(bad), key=repr):
        r = next(r for r in mine if r.key() == k)
        rep.ob(RULE, r.text(), True)
    for k, ds in bad.items():
        for d in ds:
            rep.ob(RULE, (d.code or d.spec)[0].text() + " (" + d.kind + ")", False, d.where(), d.text())
    rep.floor("reference findings compared", len(keys), least)
    rep.floor("findings recorded by the code (all properties)", len({r.key() for r in W.code}), 60)


def C18(ctx, rep):
    decide(ctx, rep, "C18", 80)


def C19(ctx, rep):
    decide(ctx, rep, "C19", 5)


def C20(ctx, rep):
    decide(ctx, rep, "C20", 2)


def C21(ctx, rep):
    decide(ctx, rep, "C21", 5)


def C22(ctx, rep):
    decide(ctx, rep, "C22", 4)


def C23(ctx, rep):
    decide(ctx, rep, "C23", 2)


def C24(ctx, rep):
    decide(ctx, rep, "C24", 4)


def C25(ctx, rep):
    decide(ctx, rep, "C25", 8)


def C26(ctx, rep):
    decide(ctx, rep, "C26", 4)


def C27(ctx, rep):
    decide(ctx, rep, "C27", 3)


def C28(ctx, rep):
    decide(ctx, rep, "C28", 4)
