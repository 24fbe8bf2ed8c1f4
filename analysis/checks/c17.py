"""C17: pattern lists are AND/OR of their members, negation is exact on every route, verbose checking gives the same verdict."""
import itertools
from .common import *
from .. import terms

M = "cdx::matcher::"
MATCHER = M + "Matcher"
COMB = M + "Combiner"
INNER = M + "Match"
LINE = M + "LineMatch"
LISTS = [M + "LineMatcherList", M + "MatcherList"]


def verdict_methods(prog, adt):
    """Public inherent and trait methods that judge a record or buffer: (path, returns Result)."""
    out = []
    for p in inherent(prog, adt):
        if prog.fns.get(p, {}).get("pub"):
            out.append(p)
    for tr in (INNER, LINE):
        for m in ("smatch", "umatch", "verbose_smatch", "verbose_umatch", "ok", "ok_verbose"):
            for ty, p in impls(prog, tr, m):
                if p in prog.bodies and prog.adt_of(prog.peel(prog.bodies[p].locals[1])) == adt:
                    out.append(p)
    res = []
    for p in out:
        b = prog.bodies[p]
        if b.nargs < 2 or not any(target_arg(prog, b.locals[i]) for i in range(2, b.nargs + 1)):
            continue
        t = prog.types[b.locals[0]]
        if t["k"] == "bool":
            res.append((p, False))
        elif t["k"] == "adt" and t["d"] == RES and prog.types[t["a"][0]]["k"] == "bool":
            res.append((p, True))
    return res


def target_arg(prog, ty):
    t = prog.types[ty]
    if t["k"] != "ref":
        return False
    u = prog.types[t["a"][0]]
    return u["k"] == "str" or u["k"] == "slice" or u.get("d", "").endswith("::TextLine")


def field(prog, adt, name):
    for i, f in enumerate(prog.adts[adt]["variants"][0]["fields"]):
        if f["name"] == name:
            return i, f["ty"]
    raise Undecided("no field %s in %s" % (name, adt))


def matcher_val(prog, name, ty, **kw):
    over = []
    for k, v in kw.items():
        i, _ = field(prog, MATCHER, k)
        over.append((("f", i), v))
    over.sort(key=repr)
    return ("m", name, ty, tuple(over))


def member(eng, st, v):
    """Index of the list member E<i> a receiver belongs to."""
    n = eng.nm(deepval(eng, st, v)) or eng.nm(v) or ""
    n = n.lstrip("&")
    if len(n) >= 2 and n[0] == "E" and n[1].isdigit():
        return int(n[1])
    return None


def ask(prog, st, key, name):
    """Fork over the two answers of an oracle, remembered in the monitor state."""
    old = dict(st.mon).get(key)
    out = []
    for o in (0, 1):
        if old is not None and o != old:
            continue
        s = st.copy()
        if old is None:
            s.mon = tuple(sorted(st.mon + ((key, o),), key=repr))
        s.note("%s says %s" % (name, bool(o)))
        out.append((("c", o), s))
    return out


def list_hook(prog):
    def hook(eng, st, call):
        c = call.callee
        if c is None or c.trait not in (INNER, LINE) or not call.args:
            return None
        if c.target in prog.bodies and c.name.startswith("verbose"):
            pass
        if c.name not in ("ok", "ok_verbose", "smatch", "umatch", "verbose_smatch", "verbose_umatch"):
            return None
        if c.res in prog.bodies:
            return None
        i = member(eng, st, call.args[0])
        if i is None:
            raise Undecided("asked something that is not a list member: %s" % (call.args[0],))
        return ask(prog, st, i, "member %d" % i)
    return hook


def lists(prog, rep, tier):
    """A list, for every length up to the bound, every verdict of its members (negated or not), and both combiners, gives the
    conjunction (And) or disjunction (Or) of its members' verdicts."""
    top = 4
    for adt in LISTS:
        if adt not in prog.adts:
            rep.unk("lists", adt, "type not found")
            continue
        vi, vty = field(prog, adt, "matchers")
        ety = prog.types[vty]["a"][0]
        ismatcher = prog.adt_of(ety) == MATCHER
        for p, isres in verdict_methods(prog, adt):
            b = prog.bodies[p]
            carg = [i for i in range(2, b.nargs + 1) if prog.adt_of(b.locals[i]) == COMB]
            bad = None
            cases = 0
            nm = p.rsplit("::", 1)[-1]
            try:
                for comb in ("And", "Or"):
                    if nm.endswith("_and") and comb == "Or" or nm.endswith("_or") and comb == "And":
                        continue
                    cv = enumval(prog, COMB, comb)
                    for n in range(top):
                        negs = [(0,) * n]
                        if ismatcher:
                            negs = list(itertools.product((0, 1), repeat=n)) if n < 3 or tier == "thorough" else [(0,) * n, (1,) * n, (1, 0, 0), (0, 0, 1)]
                        for neg in negs:
                            el = []
                            for i in range(n):
                                if ismatcher:
                                    el.append(matcher_val(prog, "E%d" % i, ety, negate=("c", neg[i]), empty=FALSE, trim=FALSE))
                                else:
                                    el.append(mk("E%d" % i, ety))
                            f = {"matchers": ("t", None, tuple(el))}
                            other = enumval(prog, COMB, "Or" if comb == "And" else "And")
                            f["multi"] = other if carg or nm.endswith(("_and", "_or")) else cv
                            slf, store = obj(prog, b, 1, "self", f)
                            args = {1: slf}
                            for i in carg:
                                args[i] = cv
                            r = outcomes(prog, p, args, store=store, hook=list_hook(prog), join_k=2000, head_k=2000)
                            for v, st in r.outs:
                                if isres:
                                    raise Undecided("unexpected result type")
                                got = boolof(r.eng, st, v)
                                if got is None:
                                    raise Undecided("verdict not constant: %s" % (v,))
                                cases += 1
                                known = {i: o ^ neg[i] for i, o in st.mon}
                                vals = [known.get(i) for i in range(n)]
                                if comb == "And":
                                    want = False if 0 in vals else (None if None in vals else True)
                                else:
                                    want = True if 1 in vals else (None if None in vals else False)
                                if got != want:
                                    bad = bad or ("an %s list of %d members whose verdicts are %s answers %s" % (
                                        comb, n, [{None: "not asked", 0: "no", 1: "yes"}[x] for x in vals], "yes" if got else "no"), st.trace())
            except Undecided as e:
                rep.unk("lists", p, e)
                continue
            if bad:
                rep.bad("lists", p, where(b), bad[0], bad[1])
            else:
                rep.ok("lists", "%s (%d cases, up to %d members)" % (p, cases, top - 1))


def one_hook(prog):
    def hook(eng, st, call):
        c = call.callee
        if c is None:
            return None
        if c.trait == INNER and c.res not in prog.bodies and c.name in ("smatch", "umatch", "verbose_smatch", "verbose_umatch"):
            k = "inner:%d" % sum(1 for x in st.mon if str(x[0]).startswith("inner"))
            # each look at a different target is a separate question
            n = eng.nm(deepval(eng, st, call.args[1])) or call.site
            return ask(prog, st, "inner " + n, "the pattern")
        if c.target and c.target.startswith(M + "Determiner::") and is_bool(prog, eng.placetype(call.body, call.term["d"])):
            return ask(prog, st, "verdict", "the quantifier")
        if c.target and c.target.startswith(M + "Determiner::") and prog.adt_of(eng.placetype(call.body, call.term["d"])) == "cdx::util::Tri":
            out = []
            s = st.copy()
            s.mon = st.mon + (("maybe", len(st.mon)),)
            out.append((enumval(prog, "cdx::util::Tri", "Maybe"), s))
            for v, q in ask(prog, st, "verdict", "the quantifier"):
                out.append((enumval(prog, "cdx::util::Tri", "Yes" if v[1] else "No"), q))
            return out
        if c.target and c.target.startswith("cdx::text::TextLine::") and not c.target.endswith("get"):
            return None
        return None
    return hook


def compare_negated(prog, rep, p, isres, mkself, plain):
    b = prog.bodies[p]
    tabs = []
    for neg in (0, 1):
        slf, store = mkself(b, neg)
        r = outcomes(prog, p, {1: slf}, store=store, hook=one_hook(prog), relevant=lambda q: "::TextLine::" not in q, head_k=60)
        t = {}
        for v, st in r.outs:
            if isres:
                vi = variant_of(r.eng, st, v)
                if vi is None:
                    raise Undecided("result not constant")
                if vi == 1:
                    continue
                v = r.eng.payload(v, 0, 0)
            got = boolof(r.eng, st, v)
            if got is None:
                raise Undecided("verdict not constant: %s" % (v,))
            k = (st.mon, frozenset((k, x) for k, x in st.asm.items()))
            t.setdefault(k, []).append((got, st))
        tabs.append(t)
    t0, t1 = tabs
    n = 0
    for k in sorted(set(t0) | set(t1), key=repr):
        if k not in t0 or k not in t1:
            raise Undecided("plain and negated paths do not correspond")
        a, c = {x[0] for x in t0[k]}, {x[0] for x in t1[k]}
        if len(a) != 1 or len(c) != 1:
            raise Undecided("verdict depends on something not tracked")
        a, c = a.pop(), c.pop()
        n += 1
        if a == c:
            rep.bad("negation", p, where(b), "plain and negated pattern both answer %s" % ("yes" if a else "no"), t1[k][0][1].trace())
            return
        inner = [o for q, o in k[0] if str(q).startswith("inner")]
        verd = [o for q, o in k[0] if q == "verdict"]
        if plain and (verd or len(inner) == 1):
            o = verd[0] if verd else inner[0]
            if bool(o) != a:
                rep.bad("negation", p, where(b), "the plain pattern answers %s although its method says %s" % ("yes" if a else "no", "yes" if o else "no"), t0[k][0][1].trace())
                return
        elif plain and not inner and a:
            if not any(x == TRUE and (kk.endswith("empty") or "is_empty" in kk) for kk, x in k[1]):
                rep.bad("negation", p, where(b), "the pattern accepts a target without looking at it", t0[k][0][1].trace())
                return
    if n == 0:
        raise Undecided("no verdict found")
    rep.ok("negation", "%s (%d cases)" % (p, n))


def negation(prog, rep, tier):
    """Every public judging method of a pattern, and every line matcher made from one pattern, answers when negated the exact
    opposite of what it answers plain, for every answer of the method, and plain it answers what the method says."""
    if MATCHER not in prog.adts:
        rep.unk("negation", MATCHER, "not found")
        return
    for p, isres in verdict_methods(prog, MATCHER):
        def mkself(b, neg):
            return obj(prog, b, 1, "self", {"negate": ("c", neg)})
        try:
            compare_negated(prog, rep, p, isres, mkself, True)
        except Undecided as e:
            rep.unk("negation", p, e)
    for adt, a in sorted(prog.adts.items()):
        if a["enum"] or not adt.startswith("cdx::"):
            continue
        fs = [(i, f) for i, f in enumerate(a["variants"][0]["fields"]) if f["ty"] is not None and prog.adt_of(f["ty"]) == MATCHER]
        if len(fs) != 1:
            continue
        i, f = fs[0]
        for p, isres in verdict_methods(prog, adt):
            if p.endswith("verbose"):
                continue

            def mkself(b, neg):
                fv = {f["name"]: matcher_val(prog, "self*." + f["name"], f["ty"], negate=("c", neg), empty=FALSE, trim=FALSE)}
                for g in a["variants"][0]["fields"]:
                    d = prog.adt_of(g["ty"]) if g["ty"] is not None else None
                    if d == "cdx::column::ColumnSet":
                        for j, h in enumerate(prog.adts[d]["variants"][0]["fields"]):
                            if h["name"] == "columns":
                                ety = prog.types[h["ty"]]["a"][0]
                                fv[g["name"]] = ("m", "self*." + g["name"], g["ty"], ((("f", j), ("t", None, (mk("C0", ety), mk("C1", ety)))),))
                return obj(prog, b, 1, "self", fv)
            try:
                compare_negated(prog, rep, p, isres, mkself, True)
            except Undecided as e:
                rep.unk("negation", p, e)


def verbose(prog, rep, tier):
    """The message-printing form of each check returns the verdict of the silent form: both are reduced to formulas over the
    same parts of the record and compared on all small models."""
    pairs = []
    for tr, sil, ver in ((LINE, "ok", "ok_verbose"), (INNER, "smatch", "verbose_smatch"), (INNER, "umatch", "verbose_umatch")):
        silent = {}
        for ty, p in impls(prog, tr, sil):
            if p in prog.bodies:
                silent[ty] = p
        d = "%s::%s" % (tr, ver)
        if d in prog.bodies:
            pairs.append((None, "%s::%s" % (tr, sil), d))
        for ty, p in impls(prog, tr, ver):
            if p in prog.bodies and p != d and ty in silent:
                pairs.append((ty, silent[ty], p))
    for ty, s, v in pairs:
        try:
            if ty is None:
                b = prog.bodies[v]

                def hook(eng, st, call):
                    c = call.callee
                    if c is not None and c.fn == s:
                        return ask(prog, st, "silent", "the silent check")
                    return None
                r = outcomes(prog, v, hook=hook)
                for val, st in r.outs:
                    got = boolof(r.eng, st, val)
                    if got is None:
                        raise Undecided("verdict %s" % (val,))
                    o = dict(st.mon).get("silent")
                    if o is None or bool(o) != got:
                        rep.bad("verbose", v, where(b), "answers %s when the silent form says %s" % (got, o), st.trace())
                        break
                else:
                    rep.ok("verbose", v)
                continue
            same(prog, rep, ty, s, v)
        except (Undecided, terms.Unknown) as e:
            rep.unk("verbose", v, e)


def pure_hook(prog, selfty):
    def hook(eng, st, call):
        c = call.callee
        if c is None or c.target is None:
            return None
        if c.target in ("cdx::expr::Expr::eval", "cdx::expr::Expr::eval_line", "cdx::expr::Expr::eval_plain"):
            ns = [eng.nm(deepval(eng, st, a)) for a in call.args]
            if None in ns:
                return None
            return [(eng.norm(st, mk("eval(%s)" % ",".join(ns), eng.placetype(call.body, call.term["d"]))), st)]
        if c.trait in (LINE, INNER) and c.res not in prog.bodies and c.name in ("ok", "ok_verbose", "smatch", "umatch", "verbose_smatch", "verbose_umatch"):
            n = eng.nm(deepval(eng, st, call.args[0]))
            m = eng.nm(deepval(eng, st, call.args[1]))
            if n is None or m is None:
                return None
            return [(eng.norm(st, mk("says(%s,%s)" % (n, m), eng.booltype())), st)]
        return None
    return hook


def same(prog, rep, ty, s, v):
    rs = []
    for p in (s, v):
        b = prog.bodies[p]
        adt = prog.adt_of(prog.peel(b.locals[1]))
        args, store = {}, {}
        names = ["self", "line"]
        if adt in LISTS:
            return  # rule lists
        for i in range(1, min(b.nargs, 2) + 1):
            args[i] = mk(names[i - 1], b.locals[i])
        rs.append(outcomes(prog, p, args, hook=pure_hook(prog, ty), relevant=lambda q: "::TextLine::" not in q))
    names = []
    for r in rs:
        for val, st in r.outs:
            for k, x in st.asm.items():
                if x[0] == "c":
                    names.append((k, True))
            if val[0] == "not":
                val = val[1]
            if val[0] == "m":
                names.append((val[1], True))
    n = 0
    for env in terms.models(names):
        got = []
        for r in rs:
            g = set()
            for val, st in r.outs:
                if all(int(terms.evl(terms.parse(k), env)) == x[1] for k, x in st.asm.items() if x[0] == "c"):
                    g.add(int(bool(terms.valuel(val, env))))
            got.append(g)
        if len(got[0]) != 1 or len(got[1]) != 1:
            continue
        n += 1
        if got[0] != got[1]:
            rep.bad("verbose", v, where(prog.bodies[v]), "answers %s where the silent form answers %s, when %s" % (
                got[1], got[0], ", ".join("%s=%s" % x for x in sorted(env.items()))))
            return
    if not n:
        raise Undecided("no model decides both forms")
    rep.ok("verbose", "%s (%d models)" % (v, n))


def parse(prog, rep, tier):
    """The modifiers of a pattern set what they are documented to set: not negates (once, for a multi-pattern as a whole), null
    accepts the empty string, and/or choose the combiner; nothing else does."""
    fn = M + "MatchMaker::make2"
    b = prog.bodies.get(fn)
    if b is None:
        rep.unk("parse", fn, "not found")
        return
    for spec, neg, emp, multi in (("", 0, 0, None), ("exact", 0, 0, None), ("not.exact", 1, 0, None), ("exact.not", 1, 0, None), ("NOT.exact", 1, 0, None),
                                  ("null.exact", 0, 1, None), ("trim.null.exact", 0, 1, None), ("not.null.exact", 1, 1, None), ("utf8.not.case.trim.exact", 1, 0, None),
                                  ("utf8.exact", 0, 0, None), ("case.exact", 0, 0, None), ("trim.exact", 0, 0, None), ("and.exact", 0, 0, "And"), ("or.exact", 0, 0, "Or"),
                                  ("not.or.exact", 1, 0, "Or"), ("and.not.exact", 1, 0, "And")):
        remade = []
        combs = []

        def hook(eng, st, call):
            c = call.callee
            if c is None:
                return None
            if c.target == M + "MatchMaker::init":
                return [(("e", RES, 0, (UNIT,)), st)]
            if c.target == M + "MatchMaker::resolve_alias":
                return [(call.args[0], st)]
            if c.target == M + "MatchMaker::remake":
                v = eng.pointee(st, call.args[0])
                i, ty = field(prog, MATCHER, "negate")
                remade.append(eng.norm(st, eng.child(v, ("f", i), ty, ".negate")))
                return [(("e", RES, 0, (UNIT,)), st), (("e", RES, 1, (mk("err"),)), st.copy())]
            if c.target and c.target.startswith(M + "MatcherList::"):
                for a in call.args:
                    if a[0] == "e" and a[1] == COMB:
                        combs.append(a[2])
            return None
        try:
            r = outcomes(prog, fn, {1: ("s", spec), 2: ("s", "/x/y")}, hook=hook)
            got = set()
            for v, st in r.outs:
                vi = variant_of(r.eng, st, v)
                if vi is None:
                    raise Undecided("result not constant")
                if vi == 1:
                    continue
                c = r.eng.payload(v, 0, 0)
                fl = []
                for nm in ("negate", "empty"):
                    i, ty = field(prog, MATCHER, nm)
                    x = r.eng.norm(st, r.eng.child(c, ("f", i), ty, "." + nm))
                    if x[0] != "c":
                        raise Undecided("%s is %s" % (nm, x))
                    fl.append(x[1])
                got.add(tuple(fl))
            if len(got) != 1:
                raise Undecided("results %s" % got)
            g = got.pop()
            if g != (neg, emp):
                rep.bad("parse", "modifiers:" + spec, where(b), "method %r gives a pattern with negated=%s, empty accepted=%s" % (spec, bool(g[0]), bool(g[1])))
                continue
            if multi is not None:
                if set(combs) != {enumval(prog, COMB, multi)[2]}:
                    if not combs:
                        raise Undecided("combiner not seen")
                    rep.bad("parse", "combiner:" + spec, where(b), "method %r does not combine with %s" % (spec, multi))
                    continue
                if any(x == TRUE for x in remade) and neg:
                    rep.bad("parse", "twice:" + spec, where(b), "method %r negates the members as well as the whole list" % spec)
                    continue
                if not remade or any(x[0] != "c" for x in remade):
                    raise Undecided("members not seen")
            elif combs:
                rep.bad("parse", "combiner:" + spec, where(b), "method %r is treated as a multi-pattern" % spec)
                continue
            rep.ok("parse", repr(spec))
        except Undecided as e:
            rep.unk("parse", repr(spec), e)


RULES = [lists, negation, verbose, parse]
