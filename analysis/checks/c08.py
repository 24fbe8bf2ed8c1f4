"""C08: equality and ordering of a comparison agree, for values, stored values and cached keys."""
from .common import *
from ..rel import Reader, feasible, understood, swap_names, text, FLIP, REL, lower
from .c07 import RULES_OF, REV, has

CMP = "cdx::comp::Compare"
LCMP = "cdx::comp::LineCompare"
SLICE = ("&[u8]", "&'a [u8]", "&str")
NAMED = ("ulp_to_ulong", "assign_lower", "new_lower", "get_col", "equal_insens", "equal_insens_quick", "cmp_insens", "cmp_insens_quick", "make_array")


def succ(t):
    out = [t[k] for k in ("t", "else") if isinstance(t.get(k), int)]
    return out + [x[1] for x in t.get("ts", [])]


def loops(prog, b, seen=()):
    """Does the function, or one it calls, loop?"""
    if b.path in seen:
        return True
    on, done = set(), set()
    st = [(0, iter(succ(b.bbs[0]["t"])))]
    on.add(0)
    while st:
        i, it = st[-1]
        for j in it:
            if j in on:
                return True
            if j not in done:
                done.add(j)
                on.add(j)
                st.append((j, iter(succ(b.bbs[j]["t"]))))
                break
        else:
            on.discard(i)
            st.pop()
    for x in b.bbs:
        t = x["t"]
        if t["k"] == "call" and t["f"].get("res") in prog.bodies and loops(prog, prog.bodies[t["f"]["res"]], seen + (b.path,)):
            return True
    return False


def opaque(prog):
    out = set()
    for p, b in prog.bodies.items():
        rt = tystr(prog, b.locals[0])
        n = p.rsplit("::", 1)[-1]
        if rt == "f64" or n in NAMED:
            out.add(p)
        elif is_ord(prog, b.locals[0]) and all(tystr(prog, b.locals[i + 1]) in SLICE for i in range(b.nargs)) and loops(prog, b):
            out.add(p)
        elif b.nargs == 1 and rt == "&[u8]" and tystr(prog, b.locals[1]) == "&[u8]":
            out.add(p)
        elif n in ("get", "line") and "TextLine" in p:
            out.add(p)
    return out


def hook_lower(prog, opq, inner=None):
    def hook(eng, st, call):
        c = call.callee
        if c is None:
            return None
        if c.name in ("assign_lower",) and len(call.args) == 2:
            loc = eng.deref(call.args[1])
            n = eng.nm(deepval(eng, st, call.args[0]))
            if loc is None or n is None:
                raise Undecided("assign_lower")
            eng.write(st, loc[0], loc[1], ("m", "lower(%s)" % n, None, ()))
            return [(UNIT, st)]
        if c.name == "clone_into" and len(call.args) == 2:
            loc = eng.deref(call.args[1])
            if loc is not None and loc[0][0] != "K":
                eng.write(st, loc[0], loc[1], deepval(eng, st, call.args[0]))
                return [(UNIT, st)]
        if c.name == "clone_from" and len(call.args) == 2:
            loc = eng.deref(call.args[0])
            if loc is not None and loc[0][0] != "K":
                eng.write(st, loc[0], loc[1], deepval(eng, st, call.args[1]))
                return [(UNIT, st)]
        if c.target in opq and tystr(prog, prog.bodies[c.target].locals[0]) in ("f64", "&[u8]"):
            ns = [eng.nm(deepval(eng, st, a)) for a in call.args]
            if None not in ns and not any("~" in x or "<" in x for x in ns):
                return [(("m", "%s(%s)" % (c.name, ",".join(ns)), eng.placetype(call.body, call.term["d"]), ()), st)]
        if inner:
            return inner(eng, st, call)
        return None
    return hook


def named_args(prog, b, names):
    args = {}
    for i, n in names.items():
        args[i] = mk(n, b.locals[i])
    return args


class Method:
    """The six functions of one implementation."""

    def __init__(self, prog, base, opq, inner=None):
        self.p, self.base, self.opq, self.inner = prog, base, opq, inner

    def run(self, name, names, store=None):
        q = self.base + "::" + name
        b = self.p.bodies.get(q)
        if b is None:
            raise Undecided("no " + q)
        args = named_args(self.p, b, names)
        st = dict(store or {})
        slf, s0 = obj(self.p, b, 1, "self", {})
        args[1] = slf
        for k, v in s0.items():
            st.setdefault(k, v)
        r = outcomes(self.p, q, args, store=st, relevant=lambda x: x not in self.opq, hook=hook_lower(self.p, self.opq, self.inner))
        if not r.outs:
            raise Undecided("no outcome of " + q)
        return r, b


def show(d, extra=""):
    return ", ".join("%s %s" % (k, {"<": "is less", "=": "is equal", ">": "is greater", "U": "is unordered"}[v]) for k, v in sorted(d.items())) + extra


def agree(rep, rd, rule, what, b, c1, c2, test, say):
    """For every pair of cases that can hold together, test(r1, r2) must be true."""
    n = 0
    for a1, r1 in c1:
        for a2, r2 in c2:
            understood(a1 + a2)
            m = feasible(rd, a1 + a2)
            if m is None:
                continue
            n += 1
            if not test(r1, r2):
                rep.bad(rule, what, where(b), say(r1, r2) + (" (when %s)" % show(m) if m else ""))
                return
    if not n:
        raise Undecided("no case can happen")
    rep.ok(rule, "%s (%d case pairs)" % (what, n))


def name_ord(r):
    return {"<": "Less", "=": "Equal", ">": "Greater"}[r]


def methods(prog):
    return [(ty, path.rsplit("::", 1)[0]) for ty, path in impls(prog, CMP, "comp")]


def values(prog, rep, tier):
    """Every Compare implementation: for all relations of the two values that can hold together, equal answers true
    exactly when comp answers Equal."""
    rd = Reader(prog)
    opq = opaque(prog)
    for ty, base in methods(prog):
        try:
            m = Method(prog, base, opq)
            r1, b = m.run("comp", {2: "left", 3: "right"})
            r2, b2 = m.run("equal", {2: "left", 3: "right"})
            c1, c2 = rd.cases(r1.eng, r1.outs), rd.cases(r2.eng, r2.outs)
            agree(rep, rd, "values", ty, b2, c1, c2, lambda x, y: (x == "=") == y,
                  lambda x, y: "equal answers %s although comp answers %s" % (str(y).lower(), name_ord(x)))
        except Undecided as e:
            rep.unk("values", ty, e)
    if not methods(prog):
        rep.unk("values", CMP, "no implementation found")


def stored(prog, rep, tier):
    """Every Compare implementation: after set(left), comp_self(right) and equal_self(right) answer what comp(left, right)
    and equal(left, right) answer."""
    rd = Reader(prog)
    opq = opaque(prog)
    for ty, base in methods(prog):
        try:
            m = Method(prog, base, opq)
            rs, bs = m.run("set", {2: "left"})
            for full, self_, in (("comp", "comp_self"), ("equal", "equal_self")):
                r1, b = m.run(full, {2: "left", 3: "right"})
                c1 = rd.cases(r1.eng, r1.outs)
                if random(c1):
                    rep.ok("stored", "%s::%s answers at random" % (ty, self_))
                    continue
                for v, st in rs.outs:
                    pre = rd.atoms(st.asm)
                    keep = {k: x for k, x in st.store.items() if k[0] == "O" and k[1] == "self*"}
                    r2, b2 = m.run(self_, {2: "right"}, keep)
                    c2 = [(pre + a, r) for a, r in rd.cases(r2.eng, r2.outs)]
                    if any("self" in text(t) for a, _ in c2 for x in a for t in (x[2:4] if x[0] == "p" else x[1:2])):
                        bad = [text(t) for a, _ in c2 for x in a for t in (x[2:4] if x[0] == "p" else x[1:2]) if "self" in text(t)]
                        rep.bad("stored", "%s::%s" % (ty, self_), where(b2), "answers by %s, which set does not store" % bad[0])
                        break
                    agree(rep, rd, "stored", "%s::%s" % (ty, self_), b2, c1, c2, lambda x, y: x == y,
                          lambda x, y: "answers %s where %s of the same two values answers %s" % (
                              y if isinstance(y, bool) else name_ord(y), full, x if isinstance(x, bool) else name_ord(x)))
        except Undecided as e:
            rep.unk("stored", ty, e)


def random(cases):
    return any(a[0] == "u" and "rng" in text(a[1]) or a[0] == "u" and "bool" == text(a[1])[:4] for at, _ in cases for a in at)


def item_fields(prog):
    fs = prog.adts["cdx::comp::Item"]["variants"][0]["fields"]
    return {f["name"]: i for i, f in enumerate(fs)}


def cache_cases(prog, rd, r, who="item*"):
    """[(atoms, key term text, complete)] after filling the cache of `item`."""
    fi = item_fields(prog)
    ic, isz = fi["cache"], fi["size_plus"]
    out = []
    for v, st in r.outs:
        o = [x for k, x in st.store.items() if k[0] == "O" and k[1] == who]
        if len(o) > 1 or o and o[0][0] != "m":
            raise Undecided("item not followed")
        ov = dict(o[0][3]) if o else {}
        key = ov.get(("f", ic))
        sz = ov.get(("f", isz))
        if key is None:
            key = ("m", who + ".cache", None, ())
        comp = None
        if sz is None:
            comp = "kept"
        elif sz[0] == "m" and sz[1].startswith("bitor("):
            comp = True
        elif sz[0] == "m" and sz[1].startswith("bitand("):
            comp = False
        if comp is None:
            raise Undecided("complete flag %s" % (sz,))
        k = str(key[1]) if key[0] == "c" else r.eng.nm(key)
        if k is None:
            raise Undecided("key %s" % (key,))
        out.append((rd.atoms(st.asm), k, comp))
    return out


def cached(prog, rep, tier):
    """Every Compare implementation: if the cached keys of two values differ, comp orders the values as the keys are
    ordered, and if they are equal and both marked complete, comp answers Equal."""
    rd = Reader(prog)
    opq = opaque(prog)
    for ty, base in methods(prog):
        try:
            m = Method(prog, base, opq)
            r1, b = m.run("comp", {2: "left", 3: "right"})
            c1 = rd.cases(r1.eng, r1.outs)
            r2, b2 = m.run("fill_cache", {2: "item", 3: "left"})
            if any("from_be_bytes" in (k or "") for _, k, _ in [(0, str([x for kk, x in st.store.items() if kk[1] == "item*"]), 0) for v, st in r2.outs]):
                prefix_key(prog, rep, ty, base, b2, c1, tier)
                continue
            contract(rep, rd, "cached", ty, b2, cache_cases(prog, rd, r2), c1)
        except Undecided as e:
            rep.unk("cached", ty, e)


def contract(rep, rd, rule, what, b, cc, c1):
    n = 0
    for al, kl, cl in cc:
        for ar, kr, cr in cc:
            ar2 = swap_names(ar, "left", "right")
            if kl == "item*.cache" and kr == "item*.cache":
                if cl is True:
                    rep.bad(rule, what, where(b), "marks the key complete without setting it")
                    return
                n += 1
                continue
            tl, tr = rd.rd(kl), rd.rd(kr)
            tr = swap_names([("u", tr, 1)], "left", "right")[0][1]
            for rel in REL:
                for ac, rc in c1:
                    atoms = al + ar2 + ac + [("p", "std", tl, tr, frozenset(rel))]
                    understood(atoms)
                    m = feasible(rd, atoms)
                    if m is None:
                        continue
                    n += 1
                    if rel != "=" and rc != rel:
                        rep.bad(rule, what, where(b), "the cached key of the left value is %s than that of the right one although comparing the values answers %s (keys %s and %s%s)" % (
                            "less" if rel == "<" else "greater", name_ord(rc), text(tl), text(tr), "; " + show(m) if m else ""))
                        return
                    if rel == "=" and cl is True and cr is True and rc != "=":
                        rep.bad(rule, what, where(b), "both keys are marked complete and equal (%s) although comparing the values answers %s%s" % (
                            text(tl), name_ord(rc), " (when %s)" % show(m) if m else ""))
                        return
    if not n:
        raise Undecided("no case can happen")
    rep.ok(rule, "%s (%d cases)" % (what, n))


def symbolic(prog, name, n):
    u8 = next(i for i, t in enumerate(prog.types) if t["s"] == "u8")
    return ("t", None, tuple(mk("%s%d" % (name, i), u8) for i in range(n)))


def prefix_key(prog, rep, ty, base, b, c1, tier):
    """Keys made of the leading bytes: byte i of the key is byte i of the value (lower-cased if and only if the comparison
    is of lower-cased values), padded with zeros, and complete only for values of at most 8 bytes none of which is 0."""
    pairs = {(a[1], text(a[2]), text(a[3])) for at, _ in c1 for a in at if a[0] == "p"}
    low = None
    for f, x, y in pairs:
        if f == "std" and {x, y} == {"left", "right"}:
            low = False
        elif f == "std" and {x, y} == {"lower(left)", "lower(right)"}:
            low = True
        else:
            raise Undecided("comparison %s(%s,%s)" % (f, x, y))
    if len(pairs) != 1 or any(r != next(iter(a[4])) for at, r in c1 for a in at if a[0] == "p" and text(a[2]).endswith("left") or a[0] == "p" and text(a[2]).endswith("left)")):
        raise Undecided("comparison not a plain one")
    q = base + "::fill_cache"
    fi = item_fields(prog)
    nn = 0
    for n in range(0, 12):
        root = ("O", "VAL", None)
        r = outcomes(prog, q, {2: mk("item", b.locals[2]), 3: ("r", root, ())}, {root: symbolic(prog, "v", n)}, head_k=200, join_k=2000,
                     hook=None)
        if not r.outs:
            raise Undecided("no outcome")
        want = ["lower(v%d)" % i if low else "v%d" % i for i in range(min(n, 8))] + ["0"] * (8 - min(n, 8))
        for v, st in r.outs:
            o = [x for k, x in st.store.items() if k[0] == "O" and k[1] == "item*"]
            ov = dict(o[0][3])
            key, sz = ov.get(("f", fi["cache"])), ov.get(("f", fi["size_plus"]))
            if key is None or key[0] == "m" and "~" in key[1]:
                raise Undecided("key not followed")
            rd = Reader(prog)
            t = rd.rd(key[1])
            if t[0] != "call" or not t[1].startswith("from_be_bytes") or len(t[2]) != 1 or t[2][0][0] != "call" or t[2][0][1] != "":
                if t[0] == "call" and t[1] in ("from_le_bytes", "from_ne_bytes"):
                    rep.bad("cached", ty, where(b), "the key is not made from the leading bytes in their order (%s)" % t[1])
                    return
                raise Undecided("key %s" % key[1][:80])
            got = [text(x) for x in t[2][0][2]]
            if got != want:
                rep.bad("cached", ty, where(b), "for a value of %d bytes the key is made of %s, which does not order as the values do (expected %s)" % (n, got, want), st.trace())
                return
            nn += 1
            if sz is None or sz[0] != "m":
                raise Undecided("complete flag")
            if sz[1].startswith("bitor("):
                zero = [i for i in range(min(n, 8)) if st.asm.get("eq(0,v%d)" % i) != ("c", 0)]
                if n > 8:
                    rep.bad("cached", ty, where(b), "a value of %d bytes has a key marked complete, so it compares equal to another value with the same first 8 bytes" % n, st.trace())
                    return
                if zero:
                    rep.bad("cached", ty, where(b), "a value of %d bytes whose byte %d may be 0 has a key marked complete, so it compares equal to a shorter value" % (n, zero[0]), st.trace())
                    return
            elif not sz[1].startswith("bitand("):
                raise Undecided("complete flag %s" % sz[1])
    rep.ok("cached", "%s (keys of values of 0..11 bytes, %d cases)" % (ty, nn))


def insens(prog, rep, tier):
    """The case-insensitive ordering of byte strings, on strings of up to 2 (thorough: 3) symbolic bytes each, is the
    byte-wise ordering of the lower-cased strings (shorter first), hence Equal exactly when they are equal ignoring case."""
    top = 3 if tier == "quick" else 4
    rd = Reader(prog)
    for fn, w in (("cmp_insens", (1, 1)), ("cmp_insens_quick", (0, 1)), ("equal_insens", (1, 1)), ("equal_insens_quick", (0, 1))):
        q = "<[u8] as cdx::text::Text>::" + fn
        b = prog.bodies.get(q)
        if b is None:
            rep.unk("insens", q, "not found")
            continue
        try:
            n = 0
            bad = None
            for la in range(top):
                for lb in range(top):
                    ra, rb = ("O", "LL", None), ("O", "RR", None)
                    r = outcomes(prog, q, {1: ("r", ra, ()), 2: ("r", rb, ())}, {ra: symbolic(prog, "l", la), rb: symbolic(prog, "r", lb)}, head_k=300, join_k=2000)
                    lt = lambda s, i, lo: lower(("atom", "%s%d" % (s, i))) if lo else ("atom", "%s%d" % (s, i))
                    if len(r.outs) == 1 and r.outs[0][0][0] == "m" and "eq_ignore_ascii_case" in r.outs[0][0][1]:
                        n += 1
                        continue
                    for at, res in rd.cases(r.eng, r.outs):
                        for i in range(min(la, lb) + 1):
                            pre = [("p", "std", lt("l", j, w[0]), lt("r", j, w[1]), frozenset("=")) for j in range(i)]
                            opts = [("<", "<"), (">", ">")] if i < min(la, lb) else [(None, "<" if la < lb else ">" if la > lb else "=")]
                            for rel, want in opts:
                                full = at + pre + ([("p", "std", lt("l", i, w[0]), lt("r", i, w[1]), frozenset(rel))] if rel else [])
                                m = feasible(rd, full)
                                if m is None:
                                    continue
                                n += 1
                                exp = (want == "=") if isinstance(res, bool) else want
                                if exp != res and not bad:
                                    bad = "strings of %d and %d bytes: answers %s where the lower-cased strings compare %s (when %s)" % (la, lb, res if isinstance(res, bool) else name_ord(res), name_ord(want), show(m) or "both are as short")
            if bad:
                rep.bad("insens", q, where(b), bad)
            elif n:
                rep.ok("insens", "%s (%d cases)" % (fn, n))
        except Undecided as e:
            rep.unk("insens", q, e)


# ---------------------------------------------------------------- comparisons of lines
def inner_hook(prog):
    """Calls of the wrapped value comparison become the relation INNER of their operands."""
    def inner(eng, st, call):
        c = call.callee
        t = c.target or ""
        if not (c.trait == CMP or t.startswith("cdx::comp::Comp::")):
            return None
        n = c.name
        if n not in ("comp", "equal", "comp_self", "equal_self", "fill_cache", "set"):
            return None
        ns = [eng.nm(deepval(eng, st, a)) for a in call.args[1:]]
        if n == "set":
            loc = eng.deref(call.args[0])
            who = eng.nm(deepval(eng, st, call.args[0]))
            st = st.copy()
            st.mon = st.mon + (("set", ns[0]),)
            return [(UNIT, st)]
        if n == "fill_cache":
            st = st.copy()
            st.mon = st.mon + (("fill", ns[1]),)
            return [(UNIT, st)]
        if any(x is None for x in ns):
            raise Undecided("operand of the wrapped comparison")
        if n.endswith("_self"):
            ns = ["STORED"] + ns
        key = "INNER(%s,%s)" % tuple(ns)
        old = st.asm.get(key)
        out = []
        for o in range(3):
            if old is not None and old[1] != o:
                continue
            s = st.copy()
            s.asm[key] = ("ev", o, (255, 0, 1)[o])
            if n.startswith("comp"):
                out.append((ORDS[o], s))
            else:
                out.append((TRUE if o == 1 else FALSE, s))
        return out
    return inner


def line_methods(prog):
    return [(ty, path.rsplit("::", 1)[0]) for ty, path in impls(prog, LCMP, "comp_cols")]


def lnames(b, prog):
    """left, right, delim, FL, FR by parameter order."""
    names = {}
    refs = [i for i in range(2, b.nargs + 1) if prog.types[b.locals[i]]["k"] == "ref"]
    nums = [i for i in range(2, b.nargs + 1) if tystr(prog, b.locals[i]) == "usize"]
    dl = [i for i in range(2, b.nargs + 1) if tystr(prog, b.locals[i]) == "u8"]
    if len(refs) == 2:
        names[refs[0]], names[refs[1]] = "left", "right"
    elif len(refs) == 1:
        names[refs[0]] = "right"
    if len(nums) == 2:
        names[nums[0]], names[nums[1]] = "FL", "FR"
    for i in dl:
        names[i] = "delim"
    return names


def run_line(prog, m, name, over=None, store=None):
    q = m.base + "::" + name
    b = prog.bodies.get(q)
    if b is None:
        raise Undecided("no " + q)
    names = lnames(b, prog)
    args = named_args(prog, b, names)
    if over:
        for i in range(2, b.nargs + 1):
            if names.get(i) in over:
                args[i] = over[names[i]]
    slf, s0 = obj(prog, b, 1, "self", {})
    args[1] = slf
    st = dict(store or {})
    for k, v in s0.items():
        st.setdefault(k, v)
    r = outcomes(prog, q, args, store=st, relevant=lambda x: x not in m.opq, hook=hook_lower(prog, m.opq, m.inner))
    if not r.outs:
        raise Undecided("no outcome of " + q)
    return r, b


def lines(prog, rep, tier):
    """Every LineCompare implementation: equal_* agrees with comp_* (columns, whole lines, against the stored value), and
    the cached key is that of the very operand that the comparison of lines extracts."""
    rd = Reader(prog)
    opq = opaque(prog)
    for ty, base in line_methods(prog):
        m = Method(prog, base, opq, inner_hook(prog))
        for c, e in (("comp_cols", "equal_cols"), ("comp_lines", "equal_lines"), ("comp_self_cols", "equal_self_cols"), ("comp_self_line", "equal_self_line")):
            try:
                r1, b1 = run_line(prog, m, c)
                r2, b2 = run_line(prog, m, e)
                c1, c2 = rd.cases(r1.eng, r1.outs), rd.cases(r2.eng, r2.outs)
                agree(rep, rd, "lines", "%s::%s" % (ty, e), b2, c1, c2, lambda x, y: (x == "=") == y,
                      lambda x, y: "answers %s although %s answers %s" % (str(y).lower(), c, name_ord(x)))
            except Undecided as x:
                rep.unk("lines", "%s::%s" % (ty, e), x)
        for full, self_ in (("comp_cols", "comp_self_cols"), ("comp_lines", "comp_self_line")):
            try:
                operand(prog, rep, rd, m, ty, full, self_)
            except Undecided as x:
                rep.unk("lines", "%s::%s" % (ty, self_), x)
        for full, fill in (("comp_cols", "fill_cache_cols"), ("comp_lines", "fill_cache_line")):
            try:
                line_cache(prog, rep, rd, m, ty, full, fill)
            except Undecided as x:
                rep.unk("lines", "%s::%s" % (ty, fill), x)


ZERO = {"FL": ("c", 0), "FR": ("c", 0)}


def pairs_of(cases):
    return {(a[1], text(a[2]), text(a[3])) for at, _ in cases for a in at if a[0] == "p"}


def operand(prog, rep, rd, m, ty, full, self_):
    """The record operand of the stored-value form is extracted as in the two-record form, and stands on the right."""
    r1, b1 = run_line(prog, m, full, ZERO)
    r2, b2 = run_line(prog, m, self_)
    p1, p2 = pairs_of(rd.cases(r1.eng, r1.outs)), pairs_of(rd.cases(r2.eng, r2.outs))
    if len(p1) != 1 or len(p2) != 1:
        raise Undecided("comparison of more than one pair")
    (f1, x1, y1), (f2, x2, y2) = next(iter(p1)), next(iter(p2))
    o1 = (x1, y1) if "left" in x1 else (y1, x1)
    s1 = "left" in x1
    o2 = (x2, y2) if "right" in y2 else (y2, x2)
    s2 = "right" in y2
    if f1 != f2:
        rep.bad("lines", "%s::%s" % (ty, self_), where(b2), "compares by %s, but %s compares by %s" % (f2, full, f1))
        return
    if o1[1] != o2[1]:
        rep.bad("lines", "%s::%s" % (ty, self_), where(b2), "compares %s of the record, but %s compares %s" % (o2[1], full, o1[1]))
        return
    # answers have the same sense: stored value on the left
    c1, c2 = rd.cases(r1.eng, r1.outs), rd.cases(r2.eng, r2.outs)
    for at, r in c2:
        rel = next(iter(at[-1][4])) if at and at[-1][0] == "p" and len(at[-1][4]) == 1 else None
        if rel is None:
            raise Undecided("answer")
        want = rel if s2 else FLIP[rel]
        for at1, q in c1:
            rel1 = next(iter(at1[-1][4])) if len(at1[-1][4]) == 1 else None
            if rel1 is None:
                raise Undecided("answer")
            sense = rel1 if s1 else FLIP[rel1]
            if sense == want and q != r:
                rep.bad("lines", "%s::%s" % (ty, self_), where(b2), "answers %s where the two-record form answers %s" % (name_ord(r), name_ord(q)))
                return
    rep.ok("lines", "%s::%s operand %s" % (ty, self_, o2[1]))


def line_cache(prog, rep, rd, m, ty, full, fill):
    r1, b1 = run_line(prog, m, full, ZERO)
    c1 = rd.cases(r1.eng, r1.outs)
    q = m.base + "::" + fill
    b = prog.bodies[q]
    args = {}
    for i in range(2, b.nargs + 1):
        s = tystr(prog, b.locals[i])
        if "Item" in s:
            args[i] = mk("item", b.locals[i])
        elif "TextLine" in s or "[u8]" in s:
            args[i] = mk("left", b.locals[i])
        elif s == "u8":
            args[i] = mk("delim", b.locals[i])
    slf, st = obj(prog, b, 1, "self", {})
    args[1] = slf

    def hook(eng, s, call):
        if call.callee is not None and (call.callee.target or "") == "cdx::comp::Item::get":
            # the item's own line within the data
            return [(mk("left", eng.placetype(call.body, call.term["d"])), s)]
        return hook_lower(prog, m.opq, m.inner)(eng, s, call)
    if "Line" not in tystr(prog, b.locals[3]):
        # the data must be narrowed to the item's line before use
        args[3] = mk("DATA", b.locals[3])
    r = outcomes(prog, q, args, store=st, relevant=lambda x: x not in m.opq, hook=hook)
    if not r.outs:
        raise Undecided("no outcome")
    fills = [[x[1] for x in s.mon if x[0] == "fill"] for v, s in r.outs]
    if any(fills):
        p1 = pairs_of(c1)
        if len(p1) != 1:
            raise Undecided("comparison of more than one pair")
        f, x, y = next(iter(p1))
        want = x if "left" in x else y
        if f != "INNER":
            raise Undecided("comparison by %s" % f)
        for fl in fills:
            if len(fl) != 1:
                raise Undecided("key filled %d times" % len(fl))
            got = text(rd.rd(fl[0]))
            if got != want:
                rep.bad("lines", "%s::%s" % (ty, fill), where(b), "the key is that of %s, but %s compares %s" % (got, full, want))
                return
        rep.ok("lines", "%s::%s key of %s" % (ty, fill, want))
        return
    contract(rep, rd, "lines", "%s::%s" % (ty, fill), b, cache_cases(prog, rd, r), c1)


# ---------------------------------------------------------------- items and rules
def items(prog, rep, tier):
    """Comparisons of sort items (cached key first): for every relation of the keys, completeness of either, direction of
    the rule and answer of the comparison of the lines that the key contract allows, the answer is that of the comparison
    of the lines (equality: exactly when that is Equal)."""
    cands = []
    for p, b in sorted(prog.bodies.items()):
        if not p.startswith("cdx::comp::") or "{closure" in p:
            continue
        its = [i for i in range(1, b.nargs + 1) if tystr(prog, b.locals[i]).replace("'_ ", "") in ("&comp::Item", "&cdx::comp::Item")]
        if len(its) == 2 and (is_ord(prog, b.locals[0]) or is_bool(prog, b.locals[0])) and prog.fns.get(p, {}).get("pub"):
            cands.append((p, b, its))
    if not cands:
        rep.unk("items", "cdx::comp", "no comparison of items found")
    for p, b, its in cands:
        if "List" in p:
            continue
        for rev in ((0, 1) if b.nargs and prog.adt_of(prog.peel(b.locals[1])) == "cdx::comp::LineComp" else (None,)):
            try:
                item_one(prog, rep, p, b, its, rev)
            except Undecided as e:
                rep.unk("items", p, e)


def item_one(prog, rep, p, b, its, rev):
    rd = Reader(prog)
    args = {i: mk(n, b.locals[i]) for i, n in zip(its, ("left", "right"))}
    store = {}
    if rev is not None:
        slf, store = obj(prog, b, 1, "self", {"reverse": ("c", rev)})
        args[1] = slf
    for i in range(1, b.nargs + 1):
        if i not in args:
            args[i] = mk({True: "base"}.get("[u8]" in tystr(prog, b.locals[i]), "arg%d" % i), b.locals[i])

    def hook(eng, st, call):
        c = call.callee
        if c is None:
            return None
        if (c.target or "").startswith("cdx::comp::Item::get"):
            n = eng.nm(deepval(eng, st, call.args[0]))
            return [(mk({"left": "lineL", "right": "lineR"}.get(n.rstrip("*"), "line?"), eng.placetype(call.body, call.term["d"])), st)]
        dty = eng.placetype(call.body, call.term["d"])
        if c.trait in (CMP, LCMP) or c.name in ("cmp", "eq", "ne") and len(call.args) == 2:
            if not (is_ord(prog, dty) or is_bool(prog, dty)):
                return None
            ns = [eng.nm(deepval(eng, st, a)) or "" for a in call.args]
            ns = [x.rstrip("*") for x in ns if "lineL" in x or "lineR" in x]
            if ns not in (["lineL", "lineR"], ["lineR", "lineL"]):
                return None if c.trait not in (CMP, LCMP) else undecided(ns)
            out = []
            old = st.asm.get("INNER(lineL,lineR)")
            for o in range(3):
                if old is not None and old[1] != o:
                    continue
                s = st.copy()
                s.asm["INNER(lineL,lineR)"] = ("ev", o, 0)
                o2 = o if ns[0] == "lineL" else REV[o]
                if is_ord(prog, dty):
                    out.append((ORDS[o2], s))
                else:
                    out.append((TRUE if (o == 1) != (c.name == "ne") else FALSE, s))
            return out
        return None
    r = outcomes(prog, p, args, store=store, hook=hook)
    if not r.outs:
        raise Undecided("no outcome")
    n = 0
    bits = ("bitand(2147483648,%s.size_plus)", )
    for v, st in r.outs:
        base = {}
        inner = None
        key = set(REL)
        comp = {"left": None, "right": None}
        for k, x in st.asm.items():
            if k == "INNER(lineL,lineR)":
                inner = REL[x[1]]
                continue
            t = rd.rd(k)
            tx = text(t)
            if "cache" in tx:
                a = rd.boolatom(k, x[1])
                if a[0] != "p":
                    raise Undecided("condition " + tx)
                rel = a[4] if "left" in text(a[2]) else frozenset(FLIP[q] for q in a[4])
                key &= set(rel)
            elif "size_plus" in tx:
                who = "left" if "left" in tx else "right"
                s = k.replace("*", "")
                if t[0] == "call" and t[1] in ("eq", "ne") and "2147483648" in tx:
                    val = x[1] if t[1] == "ne" else 1 - x[1]
                    if comp[who] is not None and comp[who] != val:
                        key = set()
                    comp[who] = val
                else:
                    raise Undecided("condition " + tx)
            else:
                raise Undecided("condition " + tx)
        v = r.eng.norm(st, v)
        if v[0] == "e":
            res = [(key, REL[v[2]])]
        elif v[0] == "c":
            res = [(key, bool(v[1]))]
        elif v[0] in ("m", "not"):
            neg = v[0] == "not"
            nm_ = (v[1] if not neg else v[1])
            w = v[1] if neg else v
            if w[0] != "m" or "cache" not in w[1]:
                raise Undecided("answer %s" % (v,))
            res = []
            for val in (0, 1):
                a = rd.boolatom(w[1], val)
                rel = a[4] if "left" in text(a[2]) else frozenset(FLIP[q] for q in a[4])
                res.append((key & set(rel), bool(val) != neg))
        else:
            raise Undecided("answer %s" % (v,))
        for ks, answer in res:
            for k in sorted(ks):
                for cl in ((0, 1) if comp["left"] is None else (comp["left"],)):
                    for cr in ((0, 1) if comp["right"] is None else (comp["right"],)):
                        for i in (REL if inner is None else inner):
                            if k != "=" and i != k:
                                continue
                            if k == "=" and cl and cr and i != "=":
                                continue
                            n += 1
                            want = (i == "=") if isinstance(answer, bool) else (FLIP[i] if rev else i)
                            if answer != want:
                                rep.bad("items", p, where(b), "keys compare %s, complete %s/%s, the lines compare %s%s: answers %s" % (
                                    name_ord(k), bool(cl), bool(cr), name_ord(i), ", the rule is reversed" if rev else "", answer if isinstance(answer, bool) else name_ord(answer)), st.trace())
                                return
    if not n:
        raise Undecided("no case")
    rep.ok("items", "%s%s (%d cases)" % (p, " reversed" if rev else "", n))


def undecided(ns):
    raise Undecided("operands %s" % ns)


def wrappers(prog, rep, tier):
    """The rule types that wrap a comparison answer equality exactly when the wrapped comparison, asked about the same
    operands and files, is Equal."""
    for adt in RULES_OF:
        for p in inherent(prog, adt):
            b = prog.bodies[p]
            if not is_bool(prog, b.locals[0]) or "equal" not in p.rsplit("::", 1)[-1] or p.endswith("equal_items") or not prog.fns.get(p, {}).get("pub"):
                continue
            try:
                from .c07 import operands, sides
                bad = []

                def hook(eng, st, call):
                    c = call.callee
                    if c is None or c.trait not in (CMP, LCMP):
                        return None
                    dty = eng.placetype(call.body, call.term["d"])
                    if not (is_ord(prog, dty) or is_bool(prog, dty)):
                        return None
                    if "split" in c.name:
                        return None
                    s, paired = sides(eng, st, call)
                    if s is None:
                        raise Undecided("operands of %s" % c.name)
                    if not paired:
                        bad.append((call.where(), "the file number of one record is used for the other"))
                    out = []
                    for o in range(3):
                        if st.mon and st.mon[0] != o:
                            continue
                        q = st.copy()
                        q.mon = (o,)
                        out.append((ORDS[REV[o] if s < 0 else o] if is_ord(prog, dty) else (TRUE if o == 1 else FALSE), q))
                    return out
                args = operands(prog, b)
                r = outcomes(prog, p, args, hook=hook)
                n = 0
                fail = None
                for v, st in r.outs:
                    x = boolof(r.eng, st, v)
                    if x is None or not st.mon:
                        raise Undecided("answer not derived from the wrapped comparison")
                    n += 1
                    if x != (st.mon[0] == 1):
                        fail = "answers %s when the wrapped comparison is %s" % (x, ORDN[st.mon[0]])
            except Undecided as e:
                rep.unk("wrappers", p, e)
                continue
            for w, what in bad:
                rep.bad("wrappers", p + ":files", w, what)
            if fail:
                rep.bad("wrappers", p, where(b), fail)
            elif n and not bad:
                rep.ok("wrappers", "%s (%d cases)" % (p, n))


def lists(prog, rep, tier):
    """A rule list of 0..3 rules is equal exactly when every rule reports equality, whichever route is taken."""
    top = 4 if tier == "quick" else 5
    from .c07 import operands, sides
    for rule, adt in RULES_OF.items():
        if rule not in prog.adts or adt not in prog.adts:
            rep.unk("lists", adt, "type not found")
            continue
        vec = [f for f in prog.adts[adt]["variants"][0]["fields"] if f["ty"] is not None and prog.types[f["ty"]].get("d") == "alloc::vec::Vec" and prog.adt_of(prog.types[f["ty"]]["a"][0]) == rule]
        if len(vec) != 1:
            rep.unk("lists", adt, "no vector of rules")
            continue
        ety = prog.types[vec[0]["ty"]]["a"][0]
        for p in inherent(prog, adt):
            b = prog.bodies[p]
            if not is_bool(prog, b.locals[0]) or "equal" not in p.rsplit("::", 1)[-1] or not prog.fns.get(p, {}).get("pub"):
                continue
            bad = None
            cases = 0
            try:
                for n in range(top):
                    elems = ("t", None, tuple(mk("E%d" % i, ety) for i in range(n)))

                    def hook(eng, st, call):
                        c = call.callee
                        if c is None or not call.args:
                            return None
                        t = c.target or ""
                        if not (t.startswith(rule + "::") or c.trait in (CMP, LCMP)):
                            return None
                        dty = eng.placetype(call.body, call.term["d"])
                        if not (is_ord(prog, dty) or is_bool(prog, dty)) or "split" in c.name:
                            return None
                        nm = eng.nm(deepval(eng, st, call.args[0])) or ""
                        if not (nm[:1] == "E" and nm[1:2].isdigit()):
                            raise Undecided("rule %s is not a list member" % nm)
                        i = int(nm[1])
                        old = dict(st.mon).get(i)
                        s, paired = sides(eng, st, call)
                        if s is None:
                            raise Undecided("operands of %s" % c.name)
                        out = []
                        for o in range(3):
                            if old is not None and o != old:
                                continue
                            q = st.copy()
                            if old is None:
                                q.mon = tuple(sorted(st.mon + ((i, o),)))
                            q.note("rule %d says %s" % (i, ORDN[o]))
                            out.append((ORDS[REV[o] if s < 0 else o] if is_ord(prog, dty) else (TRUE if o == 1 else FALSE), q))
                        return out
                    slf, store = obj(prog, b, 1, "self", {vec[0]["name"]: elems})
                    args = operands(prog, b)
                    args[1] = slf
                    r = outcomes(prog, p, args, store=store, hook=hook, relevant=lambda q: not q.startswith(rule + "::"), join_k=2000, head_k=2000)
                    for v, st in r.outs:
                        x = boolof(r.eng, st, v)
                        if x is None:
                            raise Undecided("answer not constant: %s" % (v,))
                        cases += 1
                        known = dict(st.mon)
                        if any(o != 1 for o in known.values()):
                            if x:
                                bad = bad or ("with %d rules answers true although rule %d reports a difference" % (n, [i for i in known if known[i] != 1][0]), st.trace())
                        elif len(known) < n:
                            bad = bad or ("with %d rules answers %s without having asked rule %d" % (n, str(x).lower(), [i for i in range(n) if i not in known][0]), st.trace())
                        elif not x:
                            bad = bad or ("with %d rules answers false although all of them report equality" % n, st.trace())
            except Undecided as e:
                rep.unk("lists", p, e)
                continue
            if bad:
                rep.bad("lists", p, where(b), bad[0], bad[1])
            elif cases:
                rep.ok("lists", "%s (%d cases, up to %d rules)" % (p, cases, top - 1))


RULES = [values, stored, cached, insens, lines, items, wrappers, lists]
