"""C02: no error is silently discarded."""
from ..faults import absorbed, candidates, alternative
from ..models import RES
from .common import par, where


def errors_propagate(prog, rep, tier):
    """Each function is interpreted abstractly with each of its fallible calls (any call whose result is a Result with an
    error type, or an Option of one) failing in turn: every path on which the call failed must end in an error result,
    a panic or a failing process exit.  Exempt are failed alternatives (a comparison operator or number format that is
    then read another way, bytes that are not text) and the test runner's own verdicts; bin::main is judged by C03."""
    ps = [p for p in candidates(prog) if p != "bin::main"]
    par(rep, ps, lambda p, r: one(prog, r, p), chunk=8)


def one(prog, rep, path):
    from ..absint import Undecided
    try:
        bad, sites = absorbed(prog, path)
    except Undecided as e:
        rep.unk("errors_propagate", path, e)
        return
    rep.count("functions with fallible calls")
    rep.count("fallible call sites", len(sites))
    worst = 0
    for call, v, st in bad:
        if alternative(prog, call, st):
            rep.count("failed alternatives")
            continue
        worst += 1
        rep.bad("errors_propagate", "%s:%s" % (path, call.callee.target), call.where(),
                "%s carries on after %s failed" % (path, call.callee.target), st.trace(14))
    if not worst:
        rep.ok("errors_propagate", "%s: %d sites" % (path, len(sites)))


DROPS = ("core::result::Result::<T, E>::ok", "core::result::Result::<T, E>::unwrap_or_default")


def no_error_filter(prog, rep, tier):
    """No iterator adapter throws errors away: Result::ok is never handed to an adapter, and no iterator over Results is
    flattened."""
    n = 0
    for path, b in sorted(prog.bodies.items()):
        for r in prog.fn_refs(b):
            n += 1
            if r in DROPS and not any(prog.callee(t) and prog.callee(t).target == r for i, t in b.calls()):
                rep.bad("no_error_filter", path + ":" + r, where(b), "%s hands %s to another function, which drops errors" % (path, r))
        for i, t in b.calls():
            c = prog.callee(t)
            if c is None or c.name not in ("flatten", "flat_map", "filter_map", "count", "last"):
                continue
            if c.name in ("flatten", "count", "last") and c.trait and c.trait.endswith("Iterator"):
                it = " ".join(prog.types[g]["s"] for g in (c.ga or [])[:1])
                if "Lines<" in it or "Split<" in it and "io" in it or "Result<" in it:
                    rep.bad("no_error_filter", path + ":" + c.name, "%s:%s in %s" % (b.file, t["ln"], path),
                            "%s drops errors by %s over results" % (path, c.name))
    rep.ok("no_error_filter", "%d function references" % n)


RULES = [errors_propagate, no_error_filter]
