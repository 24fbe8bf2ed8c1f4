"""C09: aggregators forget everything between groups."""
import itertools
import re
from ..absint import Undecided, UNIT, TRUE, FALSE, mk, deepval
from ..models import RES
from ..world import World, isok
from .. import toolruns, models
from .common import par, where, outcomes, impls, inherent, obj

AGG, LAGG, COUNTER = "cdx::agg::Agg", "cdx::agg::LineAgg", "cdx::agg::Counter"
SELF = "self*"


# ---------------------------------------------------------------------- state as a set of leaves
def flat(eng, st, v, path, out, d=0):
    """Leaves of a value: {path: text}; a leaf equal to what it was on entry is absent."""
    if d > 10:
        raise Undecided("deep state")
    if v[0] == "m":
        a = st.asm.get("eq(0,len(%s))" % v[1])
        if v[1] != path and a == ("c", 1):
            out[path] = "EMPTY"
            return
        if v[1] != path:
            out[path] = v[1]
        elif a == ("c", 1):
            out[path] = "EMPTY?"         # unchanged, but known to be empty here
        for k, x in v[3]:
            if k[0] == "f":
                nm = eng.p.adts[eng.p.adt_of(v[2])]["variants"][0]["fields"][k[1]]["name"] if v[2] is not None and eng.p.adt_of(v[2]) in eng.p.adts else k[1]
                flat(eng, st, x, "%s.%s" % (path, nm), out, d + 1)
            elif k[0] == "ix":
                flat(eng, st, x, "%s[%s]" % (path, k[1]), out, d + 1)
            else:
                flat(eng, st, x, "%s.%s" % (path, k), out, d + 1)
        return
    if v[0] == "t":
        if v[1] is None:
            out[path] = "EMPTY" if not v[2] else "LIST:%s" % (eng.nm(v),)
            return
        fs = eng.p.adts[v[1]]["variants"][0]["fields"] if v[1] in eng.p.adts else None
        if fs is None:
            out[path] = "%s" % (eng.nm(v),)
            return
        for f, x in zip(fs, v[2]):
            flat(eng, st, x, "%s.%s" % (path, f["name"]), out, d + 1)
        return
    if v[0] == "c":
        out[path] = str(v[1])
        return
    if v[0] in ("s", "b"):
        out[path] = "EMPTY" if not len(v[1]) else repr(v[1])
        return
    out[path] = eng.nm(v) or "~"


def selfroot(prog, body):
    ty = body.locals[1]
    t = prog.types[ty]
    if t["k"] != "ref":
        raise Undecided("self of " + body.path)
    return t["a"][0]


def after(prog, path, hook=None, relevant=None):
    """[leaves changed] for each outcome of a method with &mut self."""
    b = prog.bodies[path]
    pt = selfroot(prog, b)
    self_val = ("m", SELF, pt, ())
    m = outcomes(prog, path, args={1: mk("self", b.locals[1])}, store={("O", SELF, pt): self_val}, hook=hook, relevant=relevant, head_k=12)
    if m.eng is None:
        raise Undecided(path)
    outs = []
    for v, st in m.outs:
        x = st.store.get(("O", SELF, pt), self_val)
        o = {}
        flat(m.eng, st, x, SELF, o)
        variables(st, o)
        outs.append((o, v, st))
    return outs


def variables(st, o):
    """Variables of an expression that were assigned."""
    for e in st.mon:
        if e[0] == "set":
            o[SELF + ".expr.variable"] = e[1]


def pure_impls(prog, trait, method):
    """Does no implementation of this method change its receiver?  None: unknown."""
    key = trait + "::" + method
    q = prog.__dict__.setdefault("_quiet", {})
    if key not in q:
        ok = True
        for t, p in impls(prog, trait, method):
            b = prog.bodies.get(p)
            if b is None or not writes_self(b):
                continue
            ok = p
        q[key] = ok
    return q[key]


def writes_self(b):
    """May this body write through its first parameter?"""
    al = {1}
    for bb in b.bbs:
        for s in bb["s"]:
            if s[0] != "=":
                continue
            if s[1][0] in al and "*" in s[1][1]:
                return True
            r = s[2]
            if r["k"] == "ref" and r["m"] and r["p"][0] in al:
                return True
            if r["k"] == "use" and r["o"].get("p") and r["o"]["p"][0] in al and not r["o"]["p"][1] and not s[1][1]:
                al.add(s[1][0])
    return False


def hook_for(prog):
    def hook(eng, st, call):
        c = call.callee
        if c is None:
            return None
        if c.trait == COUNTER and c.name == "counter":
            if pure_impls(prog, COUNTER, "counter") is True:
                return [(eng.fresh(st, st.frames[-1], "n", eng.usize()), st)]
            return None
        if (c.res or c.fn).endswith("expr::Expr::set_var") and len(call.args) == 3:
            st.mon = st.mon + (("set", "%s=%s" % tuple(eng.nm(deepval(eng, st, x)) or "~" for x in call.args[1:])),)
            return [(UNIT, st)]
        if (c.res or c.fn).endswith("expr::Expr::eval"):
            # evaluating an expression uses scratch space only
            return [(eng.fresh(st, st.frames[-1], "e", None), st)]
        return None
    return hook


def kin(prog, adt):
    """Functions worth entering: methods of the aggregator, and of the plain types it is made of."""
    def rel(p):
        return "Maker" not in p and not p.startswith("cdx::comp::") and "Compare" not in p and "cdx::num" not in p
    return rel


def constructors(prog, adt):
    out = []
    for p in inherent(prog, adt):
        b = prog.bodies[p]
        ty = b.locals[0]
        t = prog.types[ty]
        if t.get("d") == adt or t.get("d") == RES and t.get("a") and prog.types[t["a"][0]].get("d") == adt:
            out.append(p)
    return out


def initial(prog, adt, path):
    """[leaves] of the object for every way the constructor can succeed."""
    b = prog.bodies[path]
    base = hook_for(prog)
    skipped = False

    def hook(eng, st, call):
        c = call.callee
        f = c and (c.res or c.fn)
        if f and f != path and f.startswith(adt + "::") and f in prog.bodies and call.args:
            m = prog.bodies[f]
            if m.nargs and prog.types[m.locals[1]]["k"] == "ref" and prog.adt_of(prog.types[m.locals[1]]["a"][0]) == adt:
                # a method that adjusts the new object: only the fields it can change become unknown
                loc = eng.deref(call.args[0])
                if loc is None:
                    return None
                fs = prog.adts[adt]["variants"][0]["fields"]
                ch = changed_fields(prog, f)
                for i, x in enumerate(fs):
                    if x["name"] in ch:
                        eng.write(st, loc[0], loc[1] + ((("f", i), x.get("ty"), x["name"]),), eng.fresh(st, st.frames[-1], "cfg", None))
                return results(eng, st, call)
        return base(eng, st, call)
    m = outcomes(prog, path, hook=hook, relevant=kin(prog, adt), head_k=8)
    outs = []
    for v, st in m.outs:
        if v[0] == "e" and v[1] == RES:
            if v[2] != 0:
                continue
            v = v[3][0]
        elif v[0] == "m" and prog.types[b.locals[0]].get("d") == RES:
            a = st.asm.get(v[1])
            if a and a[0] == "ev" and a[1] == 1:
                continue
            skipped = True
            continue
        v = deepval(m.eng, st, v)
        o = {}
        flat(m.eng, st, v, SELF, o)
        variables(st, o)
        outs.append(o)
    if not outs:
        raise Undecided(("new object of " if skipped else "no successful outcome of ") + path)
    return outs


def results(eng, st, call):
    ty = eng.placetype(call.body, call.term["d"])
    t = eng.p.types[ty] if ty is not None else {}
    if t.get("d") == RES:
        a, b = st.copy(), st.copy()
        return [(("e", RES, 0, (UNIT,)), a), (("e", RES, 1, (mk("err"),)), b)]
    return [(UNIT if t.get("s") == "()" else eng.fresh(st, st.frames[-1], "r", ty), st)]


def changed_fields(prog, path):
    """Top-level fields a method may change (syntactically)."""
    b = prog.bodies[path]
    al = {1}
    out = set()
    for bb in b.bbs:
        for s in bb["s"]:
            if s[0] != "=":
                continue
            for pl, wr in ((s[1], True), (s[2].get("p") if s[2]["k"] == "ref" and s[2]["m"] else None, True)):
                if pl and pl[0] in al and pl[1] and pl[1][0] == "*":
                    f = next((e[2] for e in pl[1] if isinstance(e, list) and e[0] == "f"), None)
                    if f is None:
                        return {x["name"] for x in prog.adts[prog.adt_of(selfroot(prog, b))]["variants"][0]["fields"]}
                    out.add(f)
        t = bb["t"]
        if t["k"] == "call" and t["d"][0] in al and t["d"][1]:
            f = next((e[2] for e in t["d"][1] if isinstance(e, list) and e[0] == "f"), None)
            out.add(f)
    return out


def subst(text, init, touched=()):
    """Replace what reset takes from the object by what the constructor put there."""
    for k in sorted(init, key=len, reverse=True):
        if k in touched:
            continue
        text = text.replace(k, init[k]) if re.search(re.escape(k) + r"(?![\w.])", text) else text
    return text


def subfields(prog, adt, path):
    """Type of the thing at a dotted path, if it is a plain struct of this crate."""
    cur = adt
    for f in re.findall(r"\.(\w+)", path[len(SELF):]):
        fs = {x["name"]: x for x in prog.adts[cur]["variants"][0]["fields"]} if cur in prog.adts else {}
        if f not in fs or "ty" not in fs[f]:
            return None
        cur = prog.adt_of(fs[f]["ty"])
        if cur is None:
            return None
    if cur in prog.adts and cur.startswith("cdx::") and len(prog.adts[cur]["variants"]) == 1 and "[" not in path:
        return [x["name"] for x in prog.adts[cur]["variants"][0]["fields"]]
    return None


def want(prog, adt, path, rs, ini, touched):
    """None if the leaf is as it was when the object was made, else (path, now, then)."""
    rs2 = {subst(k, ini) if "[" in k else k: v for k, v in rs.items()}
    p2 = subst(path, ini) if "[" in path else path
    now = rs2.get(p2)
    then = ini.get(p2)
    if now == "EMPTY?":
        now = "EMPTY"
    if now is None:
        anc = [k for k in rs2 if p2.startswith(k + ".") or p2.startswith(k + "[")]
        if anc:
            k = max(anc, key=len)
            if rs2[k] == ini.get(k) or rs2[k] == "EMPTY" and ini.get(k) in ("EMPTY", None):
                return None
            if ini.get(k) is None:
                raise Undecided("state of %s" % k)
            return (k, rs2[k], ini[k])
        sub = subfields(prog, adt, path)
        if sub and any(k.startswith(path + ".") for k in list(rs2) + list(ini)):
            for f in sub:
                r = want(prog, adt, "%s.%s" % (path, f), rs, ini, touched)
                if r:
                    return r
            return None
        return (path, "what was added before", then or "its initial value")
    now = subst(now, ini, touched)
    if then is None:
        anc = [k for k in ini if p2.startswith(k + ".") or p2.startswith(k + "[")]
        if anc and ini[max(anc, key=len)].endswith("default()") and now in ("EMPTY", "0", "fl:0.0"):
            return None
        raise Undecided("initial value of %s" % path)
    if EQ(now) == EQ(then):
        return None
    if any(re.search(re.escape(t) + r"(?![\w.])", now) for t in touched):
        return (path, now, then)
    if re.search(r"~|<\w+:[\d|]", now + " " + then):
        raise Undecided("value of %s" % path)
    return (path, now, then)


def EQ(x):
    return "EMPTY" if x in ("EMPTY", "''", "b''", "Default::default()", "EMPTY?") else "fl:0.0" if x == "fl:-0.0" else x


def reset_restores(prog, rep, tier):
    """For every aggregator: the parts of its state that adding a value or reporting can change (found by interpreting
    those methods abstractly) have, after reset from an arbitrary state, exactly the values every constructor gives them."""
    n = 0
    for trait in (AGG, LAGG):
        for t, rp in impls(prog, trait, "reset"):
            n += 1
            try:
                one_reset(prog, rep, trait, t, rp)
            except Undecided as e:
                rep.unk("reset_restores", t, e)
    rep.count("aggregators", n)


def one_reset(prog, rep, trait, adt, rp):
    rel = kin(prog, adt)
    hk = hook_for(prog)
    pi = pure_impls(prog, COUNTER, "counter")
    if pi is not True and any("dyn cdx::agg::Counter" in prog.types[f["ty"]]["s"] for f in prog.adts[adt]["variants"][0]["fields"] if "ty" in f):
        rep.bad("reset_restores", adt + ":counter", where(prog.bodies[pi]), "a counter keeps state between values, which resetting %s cannot undo" % adt)
        return
    touched = {}
    for m in ("add", "result"):
        mp = dict(impls(prog, trait, m)).get(adt)
        if mp is None:
            continue
        for o, v, st in after(prog, mp, hk, rel):
            for k, x in o.items():
                if x != "EMPTY?":
                    touched.setdefault(k, m)
    if wrapped(prog, adt):
        rep.ok("reset_restores", "%s: hands everything on (see delegation)" % adt)
        return
    rs = after(prog, rp, hk, rel)
    if not rs:
        raise Undecided("reset of %s does not return" % adt)
    ctors = constructors(prog, adt)
    if not ctors:
        raise Undecided("no constructor")
    bad = None
    for c in ctors:
        for ini in initial(prog, adt, c):
            for k in sorted(touched):
                for o, v, st in rs:
                    if any(st.asm.get(x) == ("c", int(ini[x])) for x in touched if ini.get(x, "").isdigit()):
                        continue        # reset found the object as it was made
                    r = want(prog, adt, k, o, ini, touched)
                    if r:
                        bad = bad or (r, c, k, st)
    if bad:
        r, c, k, st = bad
        rep.bad("reset_restores", adt, where(prog.bodies[rp]), "after reset, %s (changed by %s) is %s, but %s makes it %s" % (
            r[0].replace(SELF, "self"), touched[k], r[1].replace(SELF, "self")[:80], c, r[2][:80]), st.trace(8))
    else:
        rep.ok("reset_restores", "%s: %s restored" % (adt, ", ".join(sorted(x.replace(SELF + ".", "") for x in touched)) or "nothing"))


# ---------------------------------------------------------------------- wrappers and lists
def inner_calls(prog, name):
    """Hook that records calls of the trait method `name` on members."""
    def hook(eng, st, call):
        c = call.callee
        if c is None:
            return None
        if c.trait in (AGG, LAGG) and c.fn.rsplit("::", 1)[0] in (AGG, LAGG):
            rv = eng.nm(deepval(eng, st, call.args[0])) or "~"
            args = [eng.nm(deepval(eng, st, x)) or "~" for x in call.args[1:2]] if c.name == "add" else []
            st.mon = st.mon + ((c.name, rv, tuple(args)),)
            if c.name in ("result", "lookup"):
                a = st.copy()
                return [(("e", RES, 0, (UNIT,)), a), (("e", RES, 1, (mk("err"),)), st)]
            return [(UNIT if c.name in ("add", "reset") else eng.fresh(st, st.frames[-1], "v", None), st)]
        return None
    return hook


def wrapped(prog, adt, seen=()):
    """Does this type hold exactly one aggregator that it does not know?"""
    n = 0
    for f in prog.adts[adt]["variants"][0]["fields"]:
        if "ty" not in f:
            continue
        s = prog.types[f["ty"]]["s"]
        if re.search(r"(RefCell|Box|Rc)<dyn cdx::agg::(Line)?Agg\b", s) and "Vec<" not in s:
            n += 1
        a = prog.types[f["ty"]].get("d")
        if a in prog.adts and a.startswith("cdx::agg::") and a != adt and a not in seen and len(prog.adts[a]["variants"]) == 1 and wrapped(prog, a, seen + (adt,)):
            n += 1
    return n == 1


def rel_wrap(p):
    return "Maker" not in p


def delegation(prog, rep, tier):
    """Types that wrap an aggregator hand each add, reset and result on to it exactly once, whatever happens."""
    for adt, a in sorted(prog.adts.items()):
        if not adt.startswith("cdx::agg::") or len(a["variants"]) != 1:
            continue
        if not wrapped(prog, adt):
            continue
        for m in ("add", "reset", "result"):
            for p in sorted(prog.bodies):
                if p != "%s::%s" % (adt, m) and not re.match(r"<%s as .*>::%s$" % (re.escape(adt), m), p):
                    continue
                try:
                    o = outcomes(prog, p, hook=inner_calls(prog, m), relevant=rel_wrap)
                except Undecided as e:
                    rep.unk("delegation", p, e)
                    continue
                bad = False
                for v, st in o.outs:
                    if v[0] == "e" and v[1] == RES and v[2] == 1:
                        continue
                    got = [x for x in st.mon if x[0] == m]
                    if len(got) != 1 or [x for x in st.mon if x[0] in ("add", "reset") and x[0] != m]:
                        bad = True
                        rep.bad("delegation", p, where(prog.bodies[p]), "%s calls %s on the aggregator it wraps" % (
                            p, " ".join(x[0] for x in st.mon) or "nothing"), st.trace(8))
                if not bad:
                    rep.ok("delegation", "%s: %d outcomes" % (p, len(o.outs)))


def lists(prog, rep, tier):
    """A list of 0 to 3 aggregators (members unknown) hands every record and every reset to each member exactly once, in
    every outcome; filling a writer pushes every member; a deep clone makes a new member from each member's description."""
    for adt, a in sorted(prog.adts.items()):
        if not adt.startswith("cdx::agg::") or len(a["variants"]) != 1:
            continue
        fs = a["variants"][0]["fields"]
        vf = [f for f in fs if "ty" in f and re.search(r"Vec<cdx::agg::\w*Agger>", prog.types[f["ty"]]["s"])]
        if not vf:
            continue
        mem = prog.types[vf[0]["ty"]]["a"][0]
        for m in ("add", "reset"):
            p = "%s::%s" % (adt, m)
            b = prog.bodies.get(p)
            if b is None:
                continue
            for n in range(4):
                try:
                    lst = ("t", None, tuple(("m", "X%d" % i, mem, ()) for i in range(n)))
                    sv, store = obj(prog, b, 1, "self", {vf[0]["name"]: lst})
                    o = outcomes(prog, p, args={1: sv}, store=store, hook=inner_calls(prog, m), relevant=rel_wrap)
                except Undecided as e:
                    rep.unk("lists", p, e)
                    break
                bad = False
                for v, st in o.outs:
                    got = []
                    for x in st.mon:
                        k = re.search(r"X(\d)", x[1])
                        if not k:
                            raise Undecided("member %s" % x[1][:60])
                        got.append((x[0], int(k.group(1))))
                    if sorted(got) != [(m, i) for i in range(n)]:
                        bad = True
                        rep.bad("lists", p, where(b), "with %d members, %s reaches %s" % (
                            n, p, ", ".join("%s of member %d" % (x, i + 1) for x, i in got) or "none"), st.trace(8))
                    if m == "add":
                        for x in st.mon:
                            if x[2] and not re.match(r"data\*?$", x[2][0]) and "data" not in x[2][0] and "~" not in x[2][0] and not x[2][0].startswith("<"):
                                bad = True
                                rep.bad("lists", p + ":data", where(b), "%s hands its members %s" % (p, x[2][0][:60]), st.trace(8))
                if not bad:
                    rep.ok("lists", "%s with %d members: %d outcomes" % (p, n, len(o.outs)))
        fill(prog, rep, adt, vf[0], mem)
        deep(prog, rep, adt, vf[0], mem)


def fill(prog, rep, adt, vf, mem):
    p = adt + "::fill"
    b = prog.bodies.get(p)
    if b is None:
        return

    def hook(eng, st, call):
        c = call.callee
        f = c and (c.res or c.fn) or ""
        if f == "cdx::column::Writer::push":
            st.mon = st.mon + (eng.nm(deepval(eng, st, call.args[1])) or str(deepval(eng, st, call.args[1]))[:200],)
            return [(UNIT, st)]
        if c is not None and c.name == "clone" and re.search(r"X\d", eng.nm(deepval(eng, st, call.args[0])) or ""):
            return [(deepval(eng, st, call.args[0]), st)]
        if f == "cdx::util::StringLine::iter":
            return [(models.mk_iter(eng, st, ("t", None, heads[0]), None), st)]
        if c is not None and c.name == "is_col":
            a, d = st.copy(), st.copy()
            return [(TRUE, a), (FALSE, d)]
        return None
    heads = [()]
    fs = prog.adts[prog.adt_of(mem)]["variants"][0]["fields"]
    kf = [i for i, f in enumerate(fs) if f["name"] == "out" and prog.adt_of(f["ty"]) in prog.adts and prog.adts[prog.adt_of(f["ty"])]["variants"].__len__() > 1]
    kadt = prog.adt_of(fs[kf[0]]["ty"]) if kf else None
    kinds = [(i, x["name"], tuple(mk("label") for _ in x["fields"])) for i, x in enumerate(prog.adts[kadt]["variants"])] if kf else [None]
    try:
        for n, heads[0] in ((1, (("s", "a"), ("s", "b"))), (2, (("s", "a"),))):
            for ks in itertools.product(kinds, repeat=n):
                lst = ("t", None, tuple(("m", "X%d" % i, mem, ((("f", kf[0]), ("e", kadt, k[0], k[2])),) if k else ()) for i, k in enumerate(ks)))
                sv, store = obj(prog, b, 1, "self", {vf["name"]: lst})
                o = outcomes(prog, p, args={1: sv}, store=store, hook=hook, relevant=lambda q: "column" not in q and "Maker" not in q)
                bad = False
                for v, st in o.outs:
                    rep.count("fill outcomes")
                    for i, kd in enumerate(ks):
                        k = sum(1 for x in st.mon if re.search(r"X%d\b" % i, x))
                        if k != 1 and not (kd and kd[1] == "Replace"):
                            bad = True
                            rep.bad("lists", p, where(b), "with %d members (%s), %s writes member %d %d times" % (
                                n, ", ".join(x[1] if x else "" for x in ks), p, i + 1, k), st.trace(10))
                if not bad:
                    rep.ok("lists", "%s with members %s: %d outcomes" % (p, ", ".join(x[1] if x else "any" for x in ks), len(o.outs)))
    except Undecided as e:
        rep.unk("lists", p, e)


def deep(prog, rep, adt, vf, mem):
    """An independent copy is made of newly built members, one from each member's own description."""
    p = adt + "::deep_clone"
    b = prog.bodies.get(p)
    if b is None:
        return
    madt = prog.adt_of(mem)

    def hook(eng, st, call):
        c = call.callee
        f = c and (c.res or c.fn) or ""
        if c is not None and c.name == "clone" and c.trait == "core::clone::Clone":
            v = eng.nm(deepval(eng, st, call.args[0])) or ""
            if re.search(r"X\d(\*|\.agg|$)", v):
                st.mon = st.mon + (("shared", v),)
        if f.startswith(madt + "::new"):
            ds = " ".join(eng.nm(deepval(eng, st, x)) or "~" for x in call.args)
            st.mon = st.mon + (("made", ds),)
            return [(("e", RES, 0, (eng.fresh(st, st.frames[-1], "made", mem),)), st)]
        return None
    for n in range(3):
        try:
            lst = ("t", None, tuple(("m", "X%d" % i, mem, ()) for i in range(n)))
            sv, store = obj(prog, b, 1, "self", {vf["name"]: lst})
            o = outcomes(prog, p, args={1: sv}, store=store, hook=hook, relevant=rel_wrap)
        except Undecided as e:
            rep.unk("lists", p, e)
            return
        for v, st in o.outs:
            made = [int(x) for k, d in st.mon if k == "made" for x in re.findall(r"X(\d)\*?\.spec", d)]
            sh = [d for k, d in st.mon if k == "shared"]
            if sh:
                rep.bad("lists", p, where(b), "%s shares %s with the original" % (p, sh[0]), st.trace(8))
            elif made != list(range(n)):
                if any(k == "made" and "~" in d for k, d in st.mon):
                    rep.unk("lists", p, "description of the new members")
                    return
                rep.bad("lists", p, where(b), "with %d members, %s makes new ones from the descriptions of %s" % (
                    n, p, ", ".join("member %d" % (i + 1) for i in made) or "none"), st.trace(8))
            else:
                rep.ok("lists", "%s with %d members" % (p, n))


# ---------------------------------------------------------------------- tools
def groups(prog, rep, tier):
    """Abstract runs of the tools that aggregate, over every mode and inputs of every shape: once a group's result has
    been written, or the next file begins, the aggregators are reset before the next record is added; they are not reset
    between the records of one group; and every record is added exactly once."""
    js = [j for j in toolruns.jobs(prog, rep, "groups") if j[0] == "wc" or j[0] == "uniq" and "agg" in j[2]]
    par(rep, js, lambda j, r: groups_one(prog, r, *j))


class Copies(World):
    """Marks shallow copies of aggregator lists, which share their members' state with the original."""
    def on_call(self, eng, st, call):
        c = call.callee
        if c is not None and c.name == "clone" and c.trait == "core::clone::Clone" and call.args:
            ty = eng.placetype(call.body, call.term["d"])
            if self.p.adt_of(ty) in ("cdx::agg::AggList", "cdx::agg::LineAggList", "cdx::agg::Agger", "cdx::agg::LineAgger"):
                v = eng.fresh(st, st.frames[-1], "sharedcopy", ty)
                return [(v, st)]
        return super().on_call(eng, st, call)


def groups_one(prog, rep, tool, path, label, files, opts):
    w = toolruns.run(prog, path, files, opts, cls=Copies, ladder=((-1, 0, 1, 2, 3), (-1, 0, 1, 2), (0, 1, 2), (1, 2), (2,)))
    bad = 0
    n = 0
    for v, st in w.exits:
        if not isok(v):
            continue
        ev = st.mon[1]
        aggs = {e[1] for e in ev if e[0] == "push"}
        pend = []            # records added since the last reset
        shown = False        # a result was written since the last add
        every = []
        lost = []            # records dropped by a reset with no result written since they were added
        why = None
        for e in ev:
            if e[0] == "act" and e[1] == "add" and "sharedcopy" in e[2]:
                n += 1
                why = "adds to a shallow copy of an aggregator list, which shares its state with the other copies"
            if e[0] == "act" and e[1] == "add" and e[2] in aggs:
                r = re.search(r"rec:(\w+):(\d+)", e[3])
                if not r:
                    continue
                n += 1
                rec = (r.group(1), int(r.group(2)))
                if pend and shown:
                    why = "adds record %d of %s to a group whose result has already been written" % (rec[1], rec[0])
                elif pend and pend[-1][0] != rec[0] and tool == "wc":
                    why = "adds record %d of %s to what was collected from %s" % (rec[1], rec[0], pend[-1][0])
                if every and rec in every:
                    why = "adds record %d of %s twice" % (rec[1], rec[0])
                pend.append(rec)
                every.append(rec)
                shown = False
            elif e[0] == "reset" and e[1] in aggs:
                if pend and not shown and tool == "uniq":
                    why = "resets the aggregators after record %d of %s without writing the group" % (pend[-1][1], pend[-1][0])
                lost = [] if shown else pend
                pend = []
                shown = False
            elif e[0] == "w" and e[2].startswith("write("):
                if lost and not pend:
                    why = "resets the aggregators after record %d of %s and only then writes the result" % (lost[-1][1], lost[-1][0])
                shown = True
                lost = []
        if tool == "uniq" and not why and every:
            seen = sorted({(x[1], x[2]) for x in ev if x[0] == "pass"})
            miss = [x for x in seen if x not in every and x[1] > 0]
            if miss:
                why = "never adds record %d of %s" % (miss[0][1], miss[0][0])
        if why:
            bad += 1
            rep.bad("groups", "%s:%s" % (tool, label), where(prog.bodies[path]), "%s %s %s" % (tool, label, why), st.trace(20))
            break
    if not bad:
        rep.ok("groups", "%s %s: %d paths, %d additions" % (tool, label, len(w.exits), n))


RULES = [reset_restores, delegation, lists, groups]
