"""C07: reversal is applied exactly once on every route; lists decide by their first unequal rule."""
from .common import *

REV = {0: 2, 1: 1, 2: 0}
INNER = ("cdx::comp::Compare", "cdx::comp::LineCompare")
RULES_OF = {"cdx::comp::Comp": "cdx::comp::CompList", "cdx::comp::LineComp": "cdx::comp::LineCompList"}


def rule_types(prog):
    """Wrappers of a comparison that carry the reversal flag."""
    return [a for a in RULES_OF if a in prog.adts and "reverse" in field_of(prog, a, lambda f: True)]


def api(prog, adt):
    """Public methods that answer with an ordering and take none."""
    out = []
    for p in inherent(prog, adt):
        b = prog.bodies[p]
        if not is_ord(prog, b.locals[0]) or any(is_ord(prog, b.locals[i]) for i in range(1, b.nargs + 1)):
            continue
        if not prog.fns.get(p, {}).get("pub"):
            continue
        out.append(p)
    return out


def operands(prog, b):
    """Name the two compared operands L and R (and their file numbers FL, FR); others keep their names."""
    args = {}
    tys = {}
    for i in range(2, b.nargs + 1):
        tys.setdefault(b.locals[i], []).append(i)
    for ty, idx in tys.items():
        t = prog.types[ty]
        if len(idx) == 2 and t["k"] == "ref":
            args[idx[0]], args[idx[1]] = mk("L", ty), mk("R", ty)
        elif len(idx) == 2 and t["k"] == "uint":
            args[idx[0]], args[idx[1]] = mk("FL", ty), mk("FR", ty)
    if not args:
        args[b.nargs] = mk("R", b.locals[b.nargs])
    return args


def sides(eng, st, call):
    """+1 if the call compares L to R, -1 if R to L, 0 if only R; None if unclear.  Second: file numbers paired correctly."""
    ns = []
    for a in call.args[1:]:
        n = eng.nm(deepval(eng, st, a)) or ""
        ns.append(("L" if has(n, "L") else "") + ("R" if has(n, "R") else "") + ("f" if has(n, "FL") else "") + ("g" if has(n, "FR") else ""))
    main = "".join(x for x in ns if x in ("L", "R"))
    if any(len(x) > 1 for x in ns):
        return None, True
    f = "".join(x for x in ns if x in ("f", "g"))
    if main == "LR":
        return 1, f in ("", "fg")
    if main == "RL":
        return -1, f in ("", "gf")
    if main == "R":
        return 0, True
    return None, True


def has(n, w):
    i = n.find(w)
    while i >= 0:
        if (i == 0 or not (n[i - 1].isalnum() or n[i - 1] in "_:<'")) and (i + len(w) == len(n) or not (n[i + len(w)].isalnum() or n[i + len(w)] in "_:'<")):
            return True
        i = n.find(w, i + 1)
    return False


def routes(prog, rep, tier):
    """Each public comparison of a rule answers, when reversed, the exact opposite of what it answers unreversed, for every
    answer of the wrapped comparison and every relation of the cached keys; unreversed it passes the wrapped answer on."""
    for adt in rule_types(prog):
        for p in api(prog, adt):
            b = prog.bodies[p]
            try:
                tabs = []
                for rev in (0, 1):
                    bad = []

                    def hook(eng, st, call):
                        c = call.callee
                        if c is None or c.trait not in INNER or not is_ord(prog, eng.placetype(call.body, call.term["d"])):
                            return None
                        s, paired = sides(eng, st, call)
                        if s is None:
                            raise Undecided("operands of %s not recognised" % c.name)
                        if not paired:
                            bad.append((call.where(), "the file number of one record is used for the other"))
                        out = []
                        for o in range(3):
                            if st.mon and st.mon[0] != o:
                                continue
                            n = st.copy()
                            n.mon = (o,)
                            n.note("wrapped comparison answers %s" % ORDN[o])
                            out.append((ORDS[REV[o] if s < 0 else o], n))
                        return out
                    slf, store = obj(prog, b, 1, "self", {"reverse": ("c", rev)})
                    args = operands(prog, b)
                    args[1] = slf
                    r = outcomes(prog, p, args, store=store, hook=hook)
                    t = {}
                    for v, st in r.outs:
                        vi = variant_of(r.eng, st, v)
                        if vi is None:
                            raise Undecided("answer not constant: %s" % (v,))
                        k = (st.mon, frozenset((k, x) for k, x in st.asm.items() if "cache" in k or "size_plus" in k))
                        t.setdefault(k, set()).add(vi)
                    tabs.append(t)
                    for w, what in bad:
                        rep.bad("routes", p + ":files", w, what)
            except Undecided as e:
                rep.unk("routes", p, e)
                continue
            t0, t1 = tabs
            n = 0
            ok = True
            for k in sorted(set(t0) | set(t1), key=repr):
                a, c = t0.get(k), t1.get(k)
                if a is None or c is None or len(a) != 1 or len(c) != 1:
                    rep.unk("routes", "%s %s" % (p, k), "paths of the two directions do not correspond")
                    ok = False
                    continue
                a, c = next(iter(a)), next(iter(c))
                n += 1
                if k[0] and a != k[0][0]:
                    ok = False
                    rep.bad("routes", p, where(b), "answers %s when the wrapped comparison says %s and the rule is not reversed" % (ORDN[a], ORDN[k[0][0]]))
                elif c != REV[a]:
                    ok = False
                    rep.bad("routes", p, where(b), "answers %s unreversed and %s reversed, for the same records%s" % (
                        ORDN[a], ORDN[c], "" if not k[1] else " (cached keys: %s)" % ", ".join("%s=%s" % (x, y[1]) for x, y in sorted(k[1]))))
            if ok:
                rep.ok("routes", "%s (%d cases)" % (p, n))


def lists(prog, rep, tier):
    """A rule list, for every length up to the bound and every combination of answers of its rules, answers what the first
    rule that does not report equality answers, and reports equality only if all rules do."""
    top = 4 if tier == "quick" else 5
    for rule, adt in RULES_OF.items():
        if rule not in prog.adts or adt not in prog.adts:
            rep.unk("lists", adt, "type not found")
            continue
        vec = field_of(prog, adt, lambda f: f["ty"] is not None and prog.types[f["ty"]].get("d") == "alloc::vec::Vec" and prog.adt_of(prog.types[f["ty"]]["a"][0]) == rule)
        if len(vec) != 1:
            rep.unk("lists", adt, "no vector of rules")
            continue
        ety = [f for f in prog.adts[adt]["variants"][0]["fields"] if f["name"] == vec[0]][0]["ty"]
        ety = prog.types[ety]["a"][0]
        for p in api(prog, adt):
            b = prog.bodies[p]
            bad = None
            cases = 0
            try:
                for n in range(top):
                    elems = ("t", None, tuple(mk("E%d" % i, ety) for i in range(n)))

                    def hook(eng, st, call):
                        c = call.callee
                        if c is None or c.target not in prog.bodies or not c.target.startswith(rule + "::") or not call.args:
                            if c is not None and c.trait in INNER and is_ord(prog, eng.placetype(call.body, call.term["d"])):
                                nm = eng.nm(deepval(eng, st, call.args[0])) or ""
                                if nm.startswith("E"):
                                    st.note("rule's wrapped comparison is used directly")
                                    s = st.copy()
                                    s.mon = st.mon + (("direct", int(nm[1]), call.where()),)
                                    return [(ORDS[o], s) for o in range(3)]
                            return None
                        dty = eng.placetype(call.body, call.term["d"])
                        if not is_ord(prog, dty):
                            return None
                        nm = eng.nm(deepval(eng, st, call.args[0])) or ""
                        if not (len(nm) == 2 and nm[0] == "E"):
                            raise Undecided("rule %s is not a list member" % nm)
                        i = int(nm[1])
                        s, paired = sides(eng, st, call)
                        if s is None:
                            raise Undecided("operands of %s not recognised" % c.name)
                        if not paired:
                            raise Undecided("file numbers")
                        old = dict(x for x in st.mon if x[0] != "direct").get(i)
                        out = []
                        for o in range(3):
                            if old is not None and o != old:
                                continue
                            q = st.copy()
                            if old is None:
                                q.mon = tuple(sorted(st.mon + ((i, o),)))
                            q.note("rule %d answers %s" % (i, ORDN[o]))
                            out.append((ORDS[REV[o] if s < 0 else o], q))
                        return out
                    slf, store = obj(prog, b, 1, "self", {vec[0]: elems})
                    args = operands(prog, b)
                    args[1] = slf
                    r = outcomes(prog, p, args, store=store, hook=hook, relevant=lambda q: not q.startswith(rule + "::"), join_k=2000, head_k=2000)
                    for v, st in r.outs:
                        vi = variant_of(r.eng, st, v)
                        if vi is None:
                            raise Undecided("answer not constant: %s" % (v,))
                        cases += 1
                        if any(x[0] == "direct" for x in st.mon):
                            bad = bad or ("the comparison inside a rule is used without the rule's reversal", st.trace())
                            continue
                        known = dict(st.mon)
                        for i in range(n):
                            if i not in known:
                                bad = bad or ("with %d rules answers %s without having asked rule %d%s" % (n, ORDN[vi], i, "" if not known else " (rules asked: %s)" % known), st.trace())
                                break
                            if known[i] != 1:
                                if vi != known[i]:
                                    bad = bad or ("with %d rules answers %s although rule %d is the first unequal one and says %s" % (n, ORDN[vi], i, ORDN[known[i]]), st.trace())
                                break
                        else:
                            if vi != 1:
                                bad = bad or ("with %d rules answers %s although all rules report equality" % (n, ORDN[vi]), st.trace())
            except Undecided as e:
                rep.unk("lists", p, e)
                continue
            if bad:
                rep.bad("lists", p, where(b), bad[0], bad[1])
            else:
                rep.ok("lists", "%s (%d cases, up to %d rules)" % (p, cases, top - 1))


def nested(prog, rep, tier):
    """A rule over lines hands its comparison of values to a wrapper that does not reverse again."""
    n = 0
    for p, b in sorted(prog.bodies.items()):
        if not b.nargs or "{closure" in p:
            continue
        if prog.adt_of(prog.peel(b.locals[1])) != "cdx::comp::LineComp":
            continue
        if prog.adt_of(b.locals[0]) == "cdx::comp::Comp":
            try:
                r = outcomes(prog, p)
                for v, st in r.outs:
                    idx = [i for i, f in enumerate(prog.adts["cdx::comp::Comp"]["variants"][0]["fields"]) if f["name"] == "reverse"][0]
                    f = r.eng.norm(st, r.eng.child(v, ("f", idx), None, ".reverse"))
                    if f == FALSE:
                        n += 1
                    elif f == TRUE or f[0] == "m" and f[1].endswith(".reverse"):
                        rep.bad("nested", p, where(b), "the value comparison made for a line rule reverses as well, so reversal is applied twice", st.trace())
                    else:
                        raise Undecided("reverse flag is %s" % (f,))
            except Undecided as e:
                rep.unk("nested", p, e)
    if n:
        rep.ok("nested", "%d constructions" % n)
    else:
        rep.unk("nested", "construction", "none found")


def parse(prog, rep, tier):
    """The rev modifier, wherever it stands among the modifiers, makes the rule reversed, and nothing else does."""
    for fn, adt, pos in (("cdx::comp::CompMaker::make_comp_parts", "cdx::comp::Comp", 1),
                         ("cdx::comp::CompMaker::make_line_comp_parts", "cdx::comp::LineComp", 2)):
        b = prog.bodies.get(fn)
        if b is None:
            rep.unk("parse", fn, "not found")
            continue

        def hook(eng, st, call):
            c = call.callee
            if c is not None and c.target in ("cdx::comp::CompMaker::init", "cdx::comp::CompMaker::remake_comp", "cdx::comp::CompMaker::remake_line_comp"):
                # remaking replaces the wrapped comparison only; checked by rule `nested`
                return [(("e", RES, 0, (UNIT,)), st)]
            return None
        for spec, want in (("", 0), ("rev", 1), ("REV", 1), ("rev.numeric", 1), ("numeric.rev", 1), ("strict.rev.low", 1), ("low.trail.float.rev", 1),
                           ("numeric", 0), ("strict", 0), ("trail", 0), ("low", 0), ("strict.low.float", 0), ("reverse", 0)):
            try:
                r = outcomes(prog, fn, {pos: ("s", spec)}, hook=hook)
                got = set()
                for v, st in r.outs:
                    vi = variant_of(r.eng, st, v)
                    if vi is None:
                        raise Undecided("result not constant")
                    if vi == 1:
                        continue
                    c = r.eng.payload(v, 0, 0)
                    idx = [i for i, f in enumerate(prog.adts[adt]["variants"][0]["fields"]) if f["name"] == "reverse"][0]
                    f = r.eng.norm(st, r.eng.child(c, ("f", idx), None, ".reverse"))
                    if f[0] != "c":
                        raise Undecided("flag is %s" % (f,))
                    got.add(f[1])
                if not got:
                    raise Undecided("no result")
            except Undecided as e:
                rep.unk("parse", "%s %r" % (fn, spec), e)
                continue
            if got == {want}:
                rep.ok("parse", "%s %r -> %s" % (fn, spec, bool(want)))
            else:
                rep.bad("parse", "%s:%s" % (fn, spec), where(b), "method %r yields a rule with reversed=%s" % (spec, sorted(map(bool, got))))


def remake(prog, rep, tier):
    """Rebuilding the wrapped comparison leaves the reversal flag of the rule as it is."""
    for fn, adt in (("cdx::comp::CompMaker::remake_comp", "cdx::comp::Comp"), ("cdx::comp::CompMaker::remake_line_comp", "cdx::comp::LineComp")):
        b = prog.bodies.get(fn)
        if b is None:
            rep.unk("remake", fn, "not found")
            continue
        bad = []

        def write(eng, st, root, proj, val, frame, line):
            if root == ("O", "comp*", root[2] if len(root) > 2 else None) and proj and proj[0][2] == ".reverse":
                bad.append("%s:%s" % (frame.body.file, line))
        try:
            r = outcomes(prog, fn, {1: mk("comp", b.locals[1])}, write=write, init=())
        except Undecided as e:
            rep.unk("remake", fn, e)
            continue
        if bad:
            rep.bad("remake", fn, bad[0], "the reversal flag is overwritten")
        else:
            rep.ok("remake", fn)


RULES = [routes, lists, nested, parse, remake]
