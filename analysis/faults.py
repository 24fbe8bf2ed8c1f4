"""Failure injection by abstract interpretation, one function at a time.

Every call that yields a Result with an error type (and is not itself given a Result) may fail, once per path;
everything else is uninterpreted.  A function keeps its promise when every path on which a call failed ends in an
error, in a panic, or in the end of the process with a failing status.
"""
import re
from .absint import Engine, Monitor, Undecided, TOP
from .models import RES, OPT

# Result combinators under which an error stays an error
KEEPS = {"context", "with_context", "map_err", "inspect_err", "inspect", "and", "and_then", "map", "copied", "cloned",
         "flatten", "into", "from"}


def is_error_ty(prog, ty):
    s = prog.types[ty]["s"]
    return "Error" in s or "anyhow" in s


class Faults(Monitor):
    def __init__(self, prog, only=None):
        self.p = prog
        self.init = None
        self.exits = []
        self.div = []
        self.sites = {}
        self.only = only

    def relevant(self, path):
        return "{closure" in path

    def on_call(self, eng, st, call):
        c = call.callee
        if c is None or call.term["t"] is None or c.name in ("from_residual", "from_output", "branch", "call", "call_once", "call_mut"):
            return None
        dty = eng.placetype(call.body, call.term["d"])
        if dty is None:
            return None
        t = self.p.types[dty]
        opt = t.get("d") == OPT and self.p.types[t["a"][0]].get("d") == RES
        if opt:
            t = self.p.types[t["a"][0]]
        if t.get("d") != RES or not is_error_ty(self.p, t["a"][1]):
            return None
        for i, at in enumerate(call.argtys):
            if at is not None and self.p.types[self.p.peel(at)].get("d") in (RES, OPT) and self.p.types[at]["k"] != "ref":
                a = call.args[i]
                if a[0] == "e" and a[1] == RES and a[2] == 1 and c.name in KEEPS and i == 0 and not opt:
                    return [(a, st)]
                return None
        if always_err(self.p, c.res or c.fn):
            return [(("e", RES, 1, (eng.fresh(st, st.frames[-1], "err", t["a"][1]),)), st)]
        site = (call.body.path, call.bb)
        fr = st.frames[-1]

        def wrap(v):
            return ("e", OPT, 1, (v,)) if opt else v
        out = []
        if st.mon is None and (self.only is None or self.only(c, call)):
            self.sites[site] = call
            e = st.copy()
            e.mon = site
            e.note("fails: %s" % c.target)
            havoc(eng, e, call)
            out.append((wrap(("e", RES, 1, (eng.fresh(e, e.frames[-1], "err", t["a"][1]),))), e))
        if opt:
            n = st.copy()
            havoc(eng, n, call)
            out.append((("e", OPT, 0, ()), n))
        v = eng.fresh(st, fr, "c", t["a"][0])
        havoc(eng, st, call)
        out.append((wrap(("e", RES, 0, (v,))), st))
        return out

    def on_exit(self, eng, st, val):
        self.exits.append((val, st))

    def on_diverge(self, eng, st, call):
        self.div.append((call, st))


def always_err(prog, path):
    """A function whose only results are errors it makes itself."""
    c = prog.__dict__.setdefault("_always_err", {})
    if path not in c:
        b = prog.bodies.get(path)
        c[path] = False
        if b is not None:
            made = {s[2].get("vn") for x in b.bbs if not x["c"] for s in x["s"] if s[0] == "=" and s[2]["k"] == "agg" and s[2].get("d") == RES}
            calls = [t for i, t in b.calls() if prog.types[b.locals[t["d"][0]]].get("d") == RES]
            c[path] = made == {"Err"} and not calls
    return c[path]


def havoc(eng, st, call):
    fr = st.frames[-1]
    for i, a in enumerate(call.args):
        eng.havoc_arg(st, fr, a, call.argtys[i], i)


def absorbed(prog, path, only=None):
    """([(call that failed, result, state)] that did not end in an error, {site: call})"""
    b = prog.bodies[path]
    last = None
    for head, joink, steps in ((12, 60, 12000), (4, 16, 20000), (2, 4, 40000)):
        m = Faults(prog, only)
        e = Engine(prog, m, max_depth=4, max_steps=steps, head_k=head, join_k=joink, uf=True)
        try:
            e.run(b)
            break
        except Undecided as x:
            last = x
    else:
        raise last
    bad = {}
    for v, st in m.exits:
        if st.mon is None:
            continue
        if v[0] == "e" and v[1] == RES and v[2] == 1:
            continue
        if v[0] == "m" and v[2] is not None and prog.types[v[2]].get("d") == RES:
            a = st.asm.get(v[1])
            if a and a[0] == "ev" and a[1] == 1:
                continue
        bad.setdefault(st.mon, (v, st))
    for call, st in m.div:
        if st.mon is not None and call.callee and call.callee.target == "std::process::exit" and call.args and call.args[0] == ("c", 0):
            bad.setdefault(st.mon, (call.args[0], st))
    return [(m.sites[k], v, st) for k, (v, st) in bad.items()], m.sites


def candidates(prog):
    """Bodies with at least one call that yields a Result (or an Option of one)."""
    out = []
    for path, b in sorted(prog.bodies.items()):
        for i, t in b.calls():
            d = prog.types[b.locals[t["d"][0]]] if not t["d"][1] else None
            if d is not None and (d.get("d") == RES or d.get("d") == OPT and prog.types[d["a"][0]].get("d") == RES):
                out.append(path)
                break
    return out


# Failed alternatives: text that is then read another way, and the test runner, whose result is the test's verdict.
def alternative(prog, call, st):
    c = call.callee
    b = call.body.path
    if b.startswith("cdx::tooltest::"):
        return True
    tys = " ".join(prog.types[g]["s"] for g in (c.ga or []))
    if b.startswith(("cdx::matcher::", "<cdx::matcher::")):
        return (c.name == "parse" and "CompareOp" in tys) or c.name == "from_utf8" or \
            (c.name == "from_str" and "CompareOp" in (c.res or ""))
    if b.startswith("cdx::expr::"):
        return (c.res or c.fn).startswith("cdx::num::NumFormat::")
    return False
