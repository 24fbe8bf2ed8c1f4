"""C19: set quantifiers (Determiner): early verdicts equal final verdicts, which mean what the name says."""
import re
from .common import *
from .. import terms

D = "cdx::matcher::Determiner"
T = "cdx::matcher::Thresh"
TRI = "cdx::util::Tri"
PLAIN = {
    "All": lambda y, n, t: n == 0, "Some": lambda y, n, t: y > 0, "None": lambda y, n, t: y == 0,
    "NotAll": lambda y, n, t: n > 0, "Mixed": lambda y, n, t: y > 0 and n > 0, "Uniform": lambda y, n, t: y == 0 or n == 0,
}
COUNT = {
    "AtMost": lambda y, n, t: y <= t, "AtLeast": lambda y, n, t: y >= t, "Exactly": lambda y, n, t: y == t,
    "AtMostNo": lambda y, n, t: n <= t, "AtLeastNo": lambda y, n, t: n >= t, "ExactlyNo": lambda y, n, t: n == t,
}


def frac_ok(name, y, n, f, got):
    k = n if name.endswith("No") else y
    x = f * (y + n)
    if abs(k - x) <= 0.5:
        return True     # rounding: either answer is acceptable
    if name.startswith("AtMost"):
        return got == (k < x)
    if name.startswith("AtLeast"):
        return got == (k > x)
    return got is False


def tables(prog, fn, var):
    b = find_fn(prog, D + "::" + fn)
    # constructor path of the count functions under the variant
    r = outcomes(prog, b.path, {2: mk("YES", b.locals[2]), 3: mk("NO", b.locals[3])}, asm={"self*": ev(prog, D, var)})
    return r


def pick(r, env, thr, var):
    """Outcomes consistent with the model; thr is 'Count'/'Frac'/None."""
    out = []
    for v, st in r.outs:
        a = st.asm.get("self*@%s.0" % var)
        if a is not None and thr is not None and a[1] != (0 if thr == "Count" else 1):
            continue
        if terms.consistent(st.asm, env):
            out.append((v, st))
    return out


def mid_final(prog, rep, tier):
    """For each quantifier: the final verdict, as a formula over the counts, is the one its name states, and whenever the
    mid-way formula answers yes or no, the final formula gives the same answer for every continuation (the formulas only
    compare counts with each other, zero and the threshold, so the models up to the listed size decide them)."""
    base = 4 if tier == "quick" else 6
    names = [v["name"] for v in variants(prog, D)]
    trin = [v["name"] for v in variants(prog, TRI)]
    for var in names:
        if var not in PLAIN and var not in COUNT:
            rep.unk("mid_final", var, "quantifier unknown to the table")
            continue
        try:
            mid, fin = tables(prog, "match_mid", var), tables(prog, "match_final", var)
        except Undecided as e:
            rep.unk("mid_final", var, e)
            continue
        # models must reach past every constant the formulas mention
        consts = [int(x) for r in (mid, fin) for v, st in r.outs for t in list(st.asm) + [str(v)] for x in re.findall(r"(?<![\w.:])\d+(?![\w.:])", t)]
        top = max([base] + [c + 3 for c in consts if c < 40])
        for thr in ([None] if var in PLAIN else ["Count", "Frac"]):
            ts = [None] if thr is None else (range(top) if thr == "Count" else (0.0, 0.2, 0.5, 0.75, 1.0))

            def final(y, n, t):
                env = {"YES": y, "NO": n}
                if thr:
                    env["self*@%s.0@%s.0" % (var, thr)] = t
                vs = {bool(terms.value(v, env)) for v, st in pick(fin, env, thr, var)}
                return vs

            def midway(y, n, t):
                env = {"YES": y, "NO": n}
                if thr:
                    env["self*@%s.0@%s.0" % (var, thr)] = t
                return {trin[variant_of(mid.eng, st, v)] if variant_of(mid.eng, st, v) is not None else None
                        for v, st in pick(mid, env, thr, var)}
            bad1 = bad2 = None
            try:
                for t in ts:
                    for y in range(top):
                        for n in range(top):
                            if thr == "Frac" and y + n == 0:
                                continue
                            f = final(y, n, t)
                            if len(f) != 1:
                                raise terms.Unknown("final verdict ambiguous")
                            f = f.pop()
                            ok = frac_ok(var, y, n, t, f) if thr == "Frac" else f == (PLAIN.get(var) or COUNT[var])(y, n, t)
                            if not ok and bad1 is None:
                                bad1 = "%s%s answers %s with %d yes and %d no" % (var, "" if t is None else "(%s)" % t, f, y, n)
                            if y + n == 0:
                                continue
                            m = midway(y, n, t)
                            if None in m or not m:
                                raise terms.Unknown("mid verdict not constant")
                            for x in m:
                                if x == "Maybe":
                                    continue
                                for dy in range(3):
                                    for dn in range(3):
                                        if final(y + dy, n + dn, t) != {x == "Yes"} and bad2 is None:
                                            bad2 = "%s%s settles on %s after %d yes and %d no, but ends as %s after %d yes and %d no" % (
                                                var, "" if t is None else "(%s)" % t, x, y, n, final(y + dy, n + dn, t), y + dy, n + dn)
            except terms.Unknown as e:
                rep.unk("mid_final", "%s %s" % (var, thr), "formula not understood: %s" % e)
                continue
            key = var + (" " + thr if thr else "")
            if bad1:
                rep.bad("mid_final", "final " + key, where(prog.bodies[D + "::match_final"]), bad1)
            if bad2:
                rep.bad("mid_final", "mid " + key, where(prog.bodies[D + "::match_mid"]), bad2)
            if not bad1 and not bad2:
                rep.ok("mid_final", "%s: %d final and %d mid formulas agree" % (key, len(fin.outs), len(mid.outs)))


def names_rule(prog, rep, tier):
    """Each quantifier is selected by its own name."""
    b = find_fn(prog, D + "::new")
    vn = [v["name"] for v in variants(prog, D)]

    def hook(eng, st, call):
        if call.callee and call.callee.target == T + "::new":
            return [(("e", RES, 0, (mk("T"),)), st)]
        return None
    for s, want in [(x.lower(), x) for x in PLAIN] + [(x.upper(), x) for x in PLAIN] + [(x.lower() + ",3", x) for x in COUNT] + [("foo", "error"), ("", "error")]:
        r = outcomes(prog, b.path, {1: ("s", s)}, hook=hook)
        got = set()
        for v, st in r.outs:
            vi = variant_of(r.eng, st, v)
            w = variant_of(r.eng, st, r.eng.payload(v, 0, 0)) if vi == 0 else None
            got.add("error" if vi == 1 else (vn[w] if w is not None else None))
        if None in got or not got:
            rep.unk("names_rule", s, "not constant")
        elif got == {want}:
            rep.ok("names_rule", "%r selects %s" % (s, want))
        else:
            rep.bad("names_rule", s, where(b), "%r selects %s" % (s, sorted(got)))


class Loop(Monitor):
    """state: (yes, no, pending match verdict, early verdict)"""
    init = (0, 0, None, None)

    def __init__(self, prog):
        self.bad = {}
        self.prog = prog
        self.exits = 0
        self.seenfinal = 0

    def relevant(self, p):
        return not p.startswith(D) and "::TextLine::" not in p

    def counts(self, eng, st, call):
        y, n, pend, dec = st.mon
        if pend is not None:
            y, n = (y + 1, n) if pend else (y, n + 1)
        y, n = min(y, 3), min(n, 3)
        for want, got, nm in ((y, call.args[1], "matching"), (n, call.args[2], "non-matching")):
            iv = eng.ival(got)
            if iv is None:
                raise Undecided("count not tracked: %s" % (got,))
            lo, hi = iv
            if want <= 2 and (lo > want or hi is not None and hi < want) or want == 3 and hi is not None and hi < 3:
                self.bad.setdefault("count", (call.where(), "%s columns are miscounted" % nm, st.trace()))
        return y, n

    def on_call(self, eng, st, call):
        c = call.callee
        if c is None:
            return None
        y, n, pend, dec = st.mon
        if c.trait == "cdx::matcher::Match" and c.name in ("smatch", "umatch") or c.target == "cdx::util::CompareOp::ord_ok":
            out = []
            if pend is not None:
                y, n = (min(y + 1, 3), n) if pend else (y, min(n + 1, 3))
            for b in (0, 1):
                s = st.copy()
                s.mon = (y, n, b, None)
                out.append((("c", b), s))
            return out
        if c.target == D + "::match_mid":
            y, n = self.counts(eng, st, call)
            out = []
            for i, v in enumerate(variants(self.prog, TRI)):
                s = st.copy()
                s.mon = (y, n, None, None if v["name"] == "Maybe" else v["name"])
                s.note("mid-way verdict %s" % v["name"])
                out.append((("e", TRI, i, ()), s))
            return out
        if c.target == D + "::match_final":
            y, n = self.counts(eng, st, call)
            self.seenfinal += 1
            out = []
            for b in (0, 1):
                s = st.copy()
                s.mon = (y, n, None, "Yes" if b else "No")
                s.note("final verdict %d" % b)
                out.append((("c", b), s))
            return out
        return None

    def on_exit(self, eng, st, val):
        dec = st.mon[3]
        self.exits += 1
        if dec is None:
            self.bad.setdefault("nodec", ("", "a verdict is returned without the quantifier having decided", st.trace()))
            return
        v = eng.norm(st, val)
        neg = None
        want = dec == "Yes"
        if v[0] == "c":
            neg = [x[1] for k, x in st.asm.items() if k.endswith(".negate")]
            if neg:
                want ^= bool(neg[0])
            if bool(v[1]) != want:
                self.bad.setdefault("verdict", ("", "returns %s although the quantifier said %s" % (bool(v[1]), dec), st.trace()))
        else:
            x, inv = (v[1], True) if v[0] == "not" else (v, False)
            if x[0] == "m" and x[1].endswith(".negate"):
                if inv != want:
                    self.bad.setdefault("verdict", ("", "negation is applied wrongly to verdict %s" % dec, st.trace()))
            else:
                raise Undecided("verdict not understood: %s" % (v,))


def loops(prog, rep, tier):
    """Matchers that quantify over columns count each column once as matching or not, ask for the mid-way or final verdict
    with those counts, and return that verdict (negated if the pattern is)."""
    users = set()
    for p, b in prog.bodies.items():
        for i, t in b.calls():
            c = prog.callee(t)
            if c and c.target in (D + "::match_mid", D + "::match_final") and not p.startswith(D):
                users.add(p)
    for p in sorted(users):
        if "{closure" in p:
            rep.unk("loops", p, "closure")
            continue
        m = Loop(prog)
        try:
            b = prog.bodies[p]
            asm = {}
            adt = prog.adt_of(prog.peel(b.locals[1])) if b.nargs else None
            if adt in prog.adts:
                # the pattern itself decides each column (not the accept-empty modifier)
                for f in prog.adts[adt]["variants"][0]["fields"]:
                    if f["ty"] is not None and prog.adt_of(f["ty"]) == "cdx::matcher::Matcher":
                        asm["%s*.%s.empty" % (b.varname(1) or "a1", f["name"])] = FALSE
            Engine(prog, m, max_depth=6, max_steps=60000, uf=True).run(b, asm=asm)
        except Undecided as e:
            rep.unk("loops", p, e)
            continue
        for k, (w, what, tr) in m.bad.items():
            rep.bad("loops", "%s:%s" % (p, k), w or where(prog.bodies[p]), what, tr)
        if not m.bad:
            rep.ok("loops", "%s (%d exits)" % (p, m.exits))


RULES = [mid_final, names_rule, loops]
