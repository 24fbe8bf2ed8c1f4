"""C21: every registered name can be used and unknown names are errors."""
import re
from ..absint import Undecided, UNIT, deepval
from ..models import RES
from .common import where, outcomes, par

LOCK = "std::sync::poison::mutex::Mutex::<T>::lock"


# ---------------------------------------------------------------------- registries
def registries(prog):
    """Types that keep named constructors in global tables: {type: its init function}."""
    out = {}
    for p, b in sorted(prog.bodies.items()):
        m = re.match(r"(cdx::\w+::(\w+))::init$", p)
        if m and b.nargs == 0 and any(statics(prog, q) for q in prog.bodies if q.startswith(m.group(1) + "::")):
            out[m.group(1)] = p
    return out


def statics(prog, path):
    """Global tables a function locks."""
    out = set()
    for s in ops(prog.bodies[path]):
        if "static" in s and "Mutex<alloc::vec::Vec<" in prog.types[s["ty"]]["s"] if "ty" in s else False:
            out.add(s["static"])
    return out


def ops(b):
    def walk(x):
        if isinstance(x, dict):
            if "static" in x:
                yield x
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                yield from walk(v)
    for bb in b.bbs:
        yield from walk(bb["s"])
        yield from walk(bb["t"])


def strings(b):
    """String constants of a function, in order."""
    def walk(x):
        if isinstance(x, dict):
            if "str" in x:
                yield x["str"]
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                yield from walk(v)
    out = []
    for bb in b.bbs:
        out += list(walk(bb["s"])) + list(walk(bb["t"]))
    return out


class Reg:
    """The abstract content of the global tables, and the transfer functions for reaching it."""

    def __init__(self, prog):
        self.p = prog
        self.inits = {}      # init function -> {table: items}
        self.mods = {}

    def modifiers(self, path):
        """Content of a lazily made constant list."""
        if path not in self.mods:
            self.mods[path] = None
            q = "%s::__static_ref_initialize" % path
            if q in self.p.bodies:
                self.mods[path] = ("t", None, tuple(("s", x) for x in strings(self.p.bodies[q])))
        return self.mods[path]

    def preset(self, maker):
        """Constant global lists the functions of a type use."""
        out = {}
        for q, b in self.p.bodies.items():
            if not q.startswith(maker + "::"):
                continue
            for o in ops(b):
                t = self.p.types[o["ty"]]
                k = ("O", "static:" + o["static"], t["a"][0] if t.get("a") else None)
                if "Mutex<" in t["s"] or k in out or o["static"] not in self.p.bodies:
                    continue
                try:
                    m = outcomes(self.p, o["static"], lists=True)
                    if len(m.outs) == 1:
                        out[k] = deepval(m.eng, m.outs[0][1], m.outs[0][0])
                except Undecided:
                    pass
        return out

    def hook(self, eng, st, call):
        c = call.callee
        if c is None:
            return None
        f = c.res or c.fn
        if c.fn == LOCK or f == LOCK:
            v = eng.norm(st, call.args[0])
            if v[0] != "r" or v[1][0] != "O" or not v[1][1].startswith("static:"):
                return None
            tab = ("O", "table:" + v[1][1][7:], None)
            if tab not in st.store:
                st.store[tab] = ("t", None, ())
            return [(("e", RES, 0, (("r", tab, ()),)), st)]
        if "MutexGuard" in f and c.name in ("deref", "deref_mut"):
            g = eng.norm(st, call.args[0])
            loc = eng.deref(g)
            if loc is None:
                return None
            v = eng.read(st, loc[0], loc[1])
            return [(v, st)]
        if c.name == "deref" and f in self.p.bodies and f + "::__static_ref_initialize" in self.p.bodies:
            v = self.modifiers(f)
            if v is None:
                return None
            o = ("O", "const:" + f, None)
            st.store[o] = v
            return [(("r", o, ()), st)]
        return None


def tables(prog, reg, maker, init):
    """Outcomes of init from empty tables: [(store of the tables or None if it fails, state)]."""
    def hook(eng, st, call):
        c = call.callee
        if c is not None and (c.res or c.fn).startswith(maker + "::"):
            for x in call.args:
                if x[0] == "cl" and x[1] not in st.mon:
                    st.mon = st.mon + (x[1],)
        return reg.hook(eng, st, call)
    m = outcomes(prog, init, store=reg.preset(maker), hook=hook, lists=True, head_k=80, steps=200000,
                 relevant=lambda p: p.startswith(maker + "::") and "{closure" not in p)
    out = []
    for v, st in m.outs:
        if v[0] == "e" and v[1] == RES and v[2] == 1:
            out.append((None, st))
            continue
        if not (v[0] == "e" and v[1] == RES):
            raise Undecided("result of " + init)
        tabs = {}
        for k, x in st.store.items():
            if k[0] == "O" and k[1].startswith("table:"):
                if not (x[0] == "t" and x[1] is None):
                    raise Undecided("content of " + k[1][6:])
                reg.given = st.mon
                tabs[k] = ("t", None, tuple(deep_item(m.eng, st, i) for i in x[2]))
        out.append((tabs, st))
    return out


def deep_item(eng, st, v):
    if v[0] != "t":
        raise Undecided("table entry")
    return ("t", v[1], tuple(deepval(eng, st, f) for f in v[2]))


class Content:
    """What one registry type holds after init."""

    def __init__(self, prog, maker, tabs):
        self.named = {}          # table -> [(name, closure)]
        self.alias = []          # (old, new)
        for k, x in tabs.items():
            for i in x[2]:
                fs = [f["name"] for f in prog.adts[i[1]]["variants"][0]["fields"]]
                vals = dict(zip(fs, i[2]))
                cl = [v for v in i[2] if v[0] == "cl"]
                st = [f for f in fs if vals[f][0] == "s"]
                if cl and "tag" in vals:
                    self.named.setdefault(k[1][6:], []).append((txt(vals["tag"]), cl[0][1]))
                elif not cl and set(fs) == {"old_name", "new_name"}:
                    self.alias.append((txt(vals["old_name"]), txt(vals["new_name"])))
                else:
                    raise Undecided("entry of %s with %s" % (k[1][6:], ", ".join(fs) + str(len(st))))
        self.tabs = tabs


def txt(v):
    if v[0] != "s":
        raise Undecided("a name that is not constant")
    return v[1]


def load(prog, rep, rule):
    """[(registry type, init, Reg, Content)]"""
    out = []
    for maker, init in registries(prog).items():
        reg = Reg(prog)
        try:
            ts = tables(prog, reg, maker, init)
            good = [t for t, st in ts if t is not None]
            bad = [st for t, st in ts if t is None]
            if bad:
                rep.bad(rule, init, where(prog.bodies[init]), "building the table of names of %s can fail" % maker, bad[0].trace(8))
            if len(good) == 1 and not any(good[0].values()) or good and not all(x[2] for t in good for x in t.values()):
                rep.bad(rule, init, where(prog.bodies[init]), "nothing is registered in %s" % maker)
            elif len(good) == 1:
                out.append((maker, init, reg, Content(prog, maker, good[0])))
            elif len(good) > 1:
                raise Undecided("content of the tables of %s" % maker)
        except Undecided as e:
            rep.unk(rule, maker, e)
    return out


def names(prog, rep, tier):
    """init is interpreted from empty tables, giving the complete table of each registry: names within what one request
    searches are distinct, cannot be taken apart by the request syntax, are not reserved for modifiers; every alias leads
    to a registered name, and no alias hides a registered name or another alias."""
    for maker, init, reg, ct in load(prog, rep, "names"):
        w = where(prog.bodies[init])
        tags = {}
        mods = [x for m in modifier_lists(prog, reg, maker) for x in m]
        for tab, items in sorted(ct.named.items()):
            rep.count("names", len(items))
            for t, cl in items:
                if t.lower() in tags and not apart(tags[t.lower()][0], tab):
                    rep.bad("names", "%s:%s" % (maker, t), w, "the name '%s' is registered more than once in %s" % (t, maker))
                    continue
                tags.setdefault(t.lower(), (tab, t))
                if re.search(r"[.,]", t) or t == "":
                    rep.bad("names", "%s:%s" % (maker, t), w, "the name '%s' in %s cannot be requested: specifications are split at '.' and ','" % (t, maker))
                elif t in mods:
                    rep.bad("names", "%s:%s" % (maker, t), w, "the name '%s' in %s is reserved for a modifier" % (t, maker))
                else:
                    rep.ok("names", "%s: %s" % (tab, t))
        have = {c for items in ct.named.values() for t, c in items}
        for c in reg.given:
            if c not in have:
                rep.bad("names", init, where(prog.bodies[c]), "a constructor registered in %s cannot be requested: its name is registered again" % maker)
        seen = {}
        for old, new in ct.alias:
            if new in seen:
                rep.bad("names", "%s:alias %s" % (maker, new), w, "the alias '%s' in %s leads to both '%s' and '%s'" % (new, maker, seen[new], old))
            elif new.lower() in tags:
                rep.bad("names", "%s:alias %s" % (maker, new), w, "the alias '%s' in %s hides the registered name" % (new, maker))
            elif old.lower() not in tags:
                rep.bad("names", "%s:alias %s" % (maker, new), w, "the alias '%s' in %s leads to '%s', which is not registered" % (new, maker, old))
            elif re.search(r"[.,]", new) or new in mods:
                rep.bad("names", "%s:alias %s" % (maker, new), w, "the alias '%s' in %s cannot be requested" % (new, maker))
            else:
                rep.ok("names", "%s: alias %s -> %s" % (maker, new, old))
            seen[new] = old


def apart(a, b):
    """Two tables that are never searched for the same request."""
    return a != b and ("COUNTER" in a) != ("COUNTER" in b)


def modifier_lists(prog, reg, maker):
    out = []
    mod = maker.rsplit("::", 1)[0]
    for p in prog.bodies:
        m = re.match(r"(<%s::\w+ as core::ops::deref::Deref>::deref)::__static_ref_initialize$" % re.escape(mod), p)
        if m:
            v = reg.modifiers(m.group(1))
            if v:
                out.append([x[1] for x in v[2]])
    for k, v in reg.preset(maker).items():
        if v[0] == "t" and v[1] is None and all(x[0] == "s" for x in v[2]):
            out.append([x[1] for x in v[2]])
    return out


# ---------------------------------------------------------------------- requests
def entries(prog, maker):
    """[(function, parameters that are strings)] that make something from a description."""
    out = []
    for p, b in sorted(prog.bodies.items()):
        if not re.match(re.escape(maker) + r"::make\w*$", p):
            continue
        ps = [b.names.get(i, "") if hasattr(b, "names") else "" for i in range(1, b.nargs + 1)]
        tys = [prog.types[b.locals[i]]["s"] for i in range(1, b.nargs + 1)]
        out.append((p, ps, tys))
    return out


def request(prog, reg, maker, init, ct, path, args):
    """Outcomes of a request: [(closures called, ok?, state)]."""
    cls = {c: t for items in ct.named.values() for t, c in items}

    def hook(eng, st, call):
        c = call.callee
        if c is None:
            return None
        f = c.res or c.fn
        if f == init:
            for k, v in ct.tabs.items():
                st.store[k] = v
            return [(("e", RES, 0, (UNIT,)), st)]
        if c.name in ("call", "call_mut", "call_once") and call.args:
            v = deepval(eng, st, call.args[0])
            if v[0] == "cl" and v[1] in cls:
                st.mon = st.mon + (cls[v[1]],)
                return [(("e", RES, 0, (eng.fresh(st, st.frames[-1], "made", None),)), st)]
        if c.name == "first" and len(call.args) == 1:
            v = deepval(eng, st, call.args[0])
            if v[0] == "s" and v[1]:
                return [(("c", ord(v[1][0])), st)]
        return reg.hook(eng, st, call)
    mod = maker.rsplit("::", 1)[0]
    m = outcomes(prog, path, args=args, store=reg.preset(maker), hook=hook, lists=True, head_k=80, steps=60000, depth=14,
                 relevant=lambda p: (p.startswith(mod) or p.startswith("<" + mod)) and "{closure" not in p or "{closure" in p)
    out = []
    for v, st in m.outs:
        o = None
        if v[0] == "e" and v[1] == RES:
            o = v[2] == 0
        out.append((st.mon, o, st))
    if len({m for m, o, st in out if m}) > 1:
        raise Undecided("which constructor is chosen")       # the request and the tables are constant: something is not modelled
    return out


def requests(prog, rep, tier):
    """Every entry point of every registry is interpreted abstractly for each registered name, each alias, each name with
    each modifier, and unknown names (some of them close to a registered one), from tables that are still empty: it calls exactly the constructor registered
    under the name, and fails without calling any for an unknown name."""
    jobs = []
    for maker, init, reg, ct in load(prog, rep, "requests"):
        for p, ps, tys in entries(prog, maker):
            jobs.append((maker, init, reg, ct, p, ps, tys))
    par(rep, jobs, lambda j, r: entry(prog, r, *j))


def form(p, ps, tys, name):
    """Arguments with which an entry point is asked for a name; None if it does not take names."""
    n = p.rsplit("::", 1)[1]
    if any(t != "&str" and not t.startswith("&cdx::") for t in tys):
        return None
    strs = [i for i, t in enumerate(tys) if t == "&str"]
    line = "line" in n
    if not strs:
        return None
    if len(strs) == 1:
        return {strs[0] + 1: ("s", "c,%s,p" % name if line else name)}
    if line:
        if len(strs) < 3:
            return None
        return {strs[0] + 1: ("s", "c"), strs[1] + 1: ("s", name), strs[2] + 1: ("s", "p")}
    return {strs[0] + 1: ("s", name), strs[1] + 1: ("s", "p")}


def entry(prog, rep, maker, init, reg, ct, p, ps, tys):
    kind = [t for t in ct.named if ("COUNTER" in t) == ("counter" in p.rsplit("::", 1)[1])]
    tags = [t for k in kind for t, c in ct.named[k]]
    plain_only = p.endswith("make_comp") or p.endswith("make_comp_parts") or p.endswith("_comp_box") and "line" not in p
    if plain_only:
        tags = [t for k in kind if "LINE" not in k for t, c in ct.named[k]]
    if not tags:
        return
    exp = {t: t for t in tags}
    mods = [x for m in modifier_lists(prog, reg, maker) for x in m]
    takes_alias = not p.endswith("make_box") or len(tys) == 1
    if takes_alias:
        exp.update({new: old for old, new in ct.alias if old in tags and new})
        for m in mods:
            exp["%s.%s" % (m, tags[0])] = tags[0]
            exp["%s.%s" % (tags[-1], m)] = tags[-1]
    exp["no-such-name"] = None
    known = {t for items in ct.named.values() for t, c in items} | {new for old, new in ct.alias} | set(mods)
    for t in (tags[0], tags[-1]):
        for x in (t[:-1], t + "x", "x" + t, t[1:]):
            if x and x not in known:
                exp[x] = None
    for nm, want in sorted(exp.items()):
        args = form(p, ps, tys, nm)
        if args is None:
            return
        if want and set(nm.split(".")) & {"and", "or"}:
            continue                # combines several patterns
        try:
            outs = request(prog, reg, maker, init, ct, p, args)
        except Undecided as e:
            rep.unk("requests", "%s %s" % (p, nm), e)
            continue
        bad = None
        for made, o, st in outs:
            rep.count("requests")
            if want is None:
                if made:
                    bad = ("makes '%s' for the unknown name '%s'" % (made[0], nm), st)
                elif o is True:
                    bad = ("accepts the unknown name '%s'" % nm, st)
                elif o is None:
                    rep.unk("requests", "%s %s" % (p, nm), "result")
            elif made != (want,):
                if o is None:
                    rep.unk("requests", "%s %s" % (p, nm), "result")
                elif made:
                    bad = ("makes '%s' for '%s'" % (", ".join(made), nm), st)
                elif not any(x[0] for x in outs) or o is True:
                    bad = ("does not find '%s'" % nm + (" (%s)" % want if want != nm else ""), st)
        if not outs:
            rep.unk("requests", "%s %s" % (p, nm), "does not return")
        elif bad:
            rep.bad("requests", "%s %s" % (p, nm), where(prog.bodies[p]), "%s %s" % (p, bad[0]), bad[1].trace(10))
        else:
            rep.ok("requests", "%s '%s'" % (p, nm))


# ---------------------------------------------------------------------- listing
def listed(prog, rep, tier):
    """help builds the tables and prints every registered name."""
    for maker, init, reg, ct in load(prog, rep, "listed"):
        p = maker + "::help"
        if p not in prog.bodies:
            continue

        def hook(eng, st, call):
            c = call.callee
            f = c and (c.res or c.fn)
            if f == init:
                for k, v in ct.tabs.items():
                    st.store[k] = v
                return [(("e", RES, 0, (UNIT,)), st)]
            if f and f.endswith("::_print"):
                st.mon = st.mon | {x for x in re.findall(r"'([^']*)'", eng.nm(deepval(eng, st, call.args[0])) or "")}
                return [(UNIT, st)]
            return reg.hook(eng, st, call)
        try:
            m = outcomes(prog, p, store=reg.preset(maker), hook=hook, lists=True, head_k=80, init=frozenset(),
                         relevant=lambda q: q.startswith(maker))
            for v, st in m.outs:
                miss = [t for items in ct.named.values() for t, c in items if t not in st.mon]
                if miss:
                    rep.bad("listed", maker, where(prog.bodies[p]), "the registered name '%s' is not listed by %s" % (miss[0], p), st.trace(8))
                else:
                    rep.ok("listed", "%s: %d names" % (p, sum(len(x) for x in ct.named.values())))
            if not m.outs:
                raise Undecided("does not return")
        except Undecided as e:
            rep.unk("listed", p, e)


# ---------------------------------------------------------------------- what is made
def distinct(prog, rep, tier):
    """No two registered names of a table make the same thing (same type, constants and settings)."""
    for maker, init, reg, ct in load(prog, rep, "distinct"):
        for tab, items in sorted(ct.named.items()):
            made = {}
            for t, cl in items:
                try:
                    m = outcomes(prog, cl, relevant=lambda q: False, head_k=4)
                    d = []
                    for v, st in m.outs:
                        if v[0] == "e" and v[1] == RES and v[2] == 1:
                            continue
                        x = shape(m.eng, st, v)
                        sets = tuple(sorted((k[1], str(y)) for k, y in st.store.items() if k[0] == "O" and not k[1].startswith("<")))
                        d.append((x, sets))
                    d = frozenset(d)
                except Undecided as e:
                    rep.unk("distinct", "%s %s" % (tab, t), e)
                    continue
                if not d or any("~" in x for x, _ in d):
                    rep.unk("distinct", "%s %s" % (tab, t), "what it makes")
                elif d in made:
                    rep.bad("distinct", "%s %s" % (tab, t), where(prog.bodies[cl]), "'%s' and '%s' in %s make the same thing" % (made[d], t, tab))
                else:
                    made[d] = t
                    rep.ok("distinct", "%s: %s" % (tab, t))


def shape(eng, st, v):
    def f(v, d=0):
        v = deepval(eng, st, v)
        if v[0] == "r" and v[1] in st.store and not v[2] and d < 6:
            return "&" + f(st.store[v[1]], d + 1)
        if v[0] == "t":
            return "%s(%s)" % (v[1], ",".join(f(x, d + 1) for x in v[2]))
        if v[0] == "e":
            return "%s#%s(%s)" % (v[1], v[2], ",".join(f(x, d + 1) for x in v[3]))
        return str(v)
    return re.sub(r"<\w+:\d+>", "<>", f(v))


# ---------------------------------------------------------------------- locks
def deadlock(prog, rep, tier):
    """While a table is locked, nothing that is called (including the registered constructors) locks the same table again."""
    locks = {}
    calls = {}
    for p, b in prog.bodies.items():
        s = {o["static"] for o in ops(b) if "Mutex<" in prog.types[o["ty"]]["s"]}
        if s and any((k := prog.callee(t)) and LOCK in (k.fn, k.res) for i, t in b.calls()):
            locks[p] = s
        calls[p] = {k.res for i, t in b.calls() if (k := prog.callee(t)) and k.res}
        calls[p] |= {q for q in closures_in(b)}
    reach = dict((p, set(s)) for p, s in locks.items())
    while True:
        ch = False
        for p, cs in calls.items():
            n = set().union(*[reach.get(c, set()) for c in cs]) if cs else set()
            if n - reach.get(p, set()):
                reach.setdefault(p, set()).update(n)
                ch = True
        if not ch:
            break
    makers = {}
    for maker, init, reg, ct in load(prog, rep, "deadlock"):
        for t, items in ct.named.items():
            makers[t] = [c for _, c in items]
    for p in sorted(locks):
        b = prog.bodies[p]
        for bb, tab, region in held(prog, b):
            for i in sorted(region):
                t = b.bbs[i]["t"]
                if t["k"] != "call" or i == bb:
                    continue
                k = prog.callee(t)
                if k is None:
                    continue
                who = None
                if k.res and tab in reach.get(k.res, ()):
                    who = k.res
                elif k.name in ("call", "call_mut") and k.trait and "function::Fn" in k.trait:
                    who = next((c for c in makers.get(tab, ()) if tab in reach.get(c, ())), None)
                rep.count("calls under a lock")
                if who:
                    rep.bad("deadlock", "%s:%s" % (p, tab), "%s:%s in %s" % (b.file, t.get("ln", b.line), p),
                            "%s calls %s while holding the lock on %s, which it locks again" % (p, who, tab))
            rep.ok("deadlock", "%s holds %s" % (p, tab))


def closures_in(b):
    out = set()
    for bb in b.bbs:
        for s in bb["s"]:
            if s[0] == "=" and s[2].get("k") == "agg" and s[2].get("ak", s[2].get("a")) and "closure" in str(s[2])[:200]:
                m = re.search(r"'([^']*\{closure#\d+\})'", str(s[2]))
                if m:
                    out.add(m.group(1))
    return out


def held(prog, b):
    """[(block of the lock call, table, blocks reached before the guard is dropped)]"""
    out = []
    for i, t in b.calls():
        k = prog.callee(t)
        if not k or LOCK not in (k.fn, k.res):
            continue
        tab = None
        for o in ops_of(b, i):
            tab = o
        if tab is None:
            continue
        # locals that hold the guard
        g = {t["d"][0]}
        ch = True
        while ch:
            ch = False
            for j, u in b.calls():
                kk = prog.callee(u)
                if kk and kk.name == "unwrap" and u["args"] and u["args"][0].get("p") and u["args"][0]["p"][0] in g and u["d"][0] not in g:
                    g.add(u["d"][0])
                    ch = True
            for bb in b.bbs:
                for s in bb["s"]:
                    if s[0] == "=" and s[2]["k"] == "use" and s[2]["o"].get("p") and s[2]["o"]["p"][0] in g and not s[2]["o"]["p"][1] and not s[1][1] and s[1][0] not in g:
                        g.add(s[1][0])
                        ch = True
        region, work = set(), [t["t"]]
        while work:
            x = work.pop()
            if x is None or x in region:
                continue
            region.add(x)
            u = b.bbs[x]["t"]
            if u["k"] == "drop" and u["p"][0] in g:
                continue
            if u["k"] == "call" and any(a.get("p") and a["p"][0] in g and not a["p"][1] and a.get("k") == "move" for a in u["args"]) and (prog.callee(u) and prog.callee(u).name == "drop"):
                continue
            work += [y for y in b.succ(x)]
        out.append((i, tab, region))
    return out


def ops_of(b, i):
    for s in reversed(b.bbs[i]["s"]):
        m = re.search(r"'static': '([^']*)'", str(s))
        if m:
            yield m.group(1)
            return


RULES = [names, requests, listed, distinct, deadlock]
