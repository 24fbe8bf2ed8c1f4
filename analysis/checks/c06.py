"""C06: column names are resolved against each file before its data is used."""
import re
from ..world import World, isok, tools, REC, XMODELS
from ..absint import Undecided, mk, deepval, UNIT, TRUE, FALSE
from ..models import RES, OPT
from .. import toolruns
from .c04 import OPAQUE
from .common import par, where, outcomes, obj, variant_of

CONT = ("alloc::vec::Vec", "core::option::Option", "alloc::boxed::Box", "alloc::rcs::rc::Rc", "alloc::rc::Rc", "core::cell::RefCell",
        "alloc::collections::vec_deque::VecDeque", "alloc::sync::Arc")


def lookups(prog):
    """{ADT: [bodies]} of the methods that resolve column names (given the names), trait methods included."""
    out = {}
    for p, b in prog.bodies.items():
        n = p.rsplit("::", 1)[-1]
        if n not in ("lookup", "lookup_n") or b.nargs < 2:
            continue
        t = prog.types[b.locals[1]]
        if t["k"] != "ref" or not t.get("m"):
            continue
        t = prog.types[t["a"][0]]
        if t["k"] == "adt":
            out.setdefault(t["d"], []).append(b)
    return out


def mentions(x, al):
    """Does this rvalue / operand read one of the locals?"""
    if isinstance(x, dict):
        return any(mentions(y, al) for y in x.values())
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            return x[0] in al or mentions(x[1], al)
        return any(mentions(y, al) for y in x)
    return False


def uses_names(prog, b):
    """Does this body do anything with the names except passing them on to another lookup?"""
    al = {2}
    while True:
        n = len(al)
        for bb in b.bbs:
            for s in bb["s"]:
                if s[0] == "=" and s[1][0] not in al and mentions(s[2], al):
                    al.add(s[1][0])
        if n == len(al):
            break
    for bb in b.bbs:
        t = bb["t"]
        if t["k"] != "call":
            continue
        k = prog.callee(t)
        if k is not None and k.name in ("lookup", "lookup_n"):
            continue
        if mentions(t["args"], al):
            return True
    return False


def contents(prog, ty, pred, d=0):
    """Does this type hold (directly or in std containers) something pred accepts? -> list of (kind, type) chains."""
    t = prog.types[ty]
    if d > 6:
        return False
    if pred(t):
        return True
    if t["k"] in ("ref", "ptr", "tuple", "array", "slice"):
        return any(contents(prog, a, pred, d + 1) for a in t.get("a") or [])
    if t["k"] == "adt" and (t["d"] in CONT or t["d"].startswith(("core::", "alloc::"))):
        return any(contents(prog, a, pred, d + 1) for a in t.get("a") or [])
    return False


def significant(prog):
    """(ADTs, traits) whose lookup really resolves something."""
    c = getattr(prog, "_c06_sig", None)
    if c:
        return c
    lk = lookups(prog)
    adts = {a for a, bs in lk.items() if any(uses_names(prog, b) for b in bs)}
    traits = set()
    tr = {}
    for key, lst in prog.impl_of.items():
        if key.endswith("::lookup") or key.endswith("::lookup_n"):
            tr.setdefault(key.rsplit("::", 1)[0], []).extend(lst)
    while True:
        n = len(adts) + len(traits)

        def pred(t):
            return t["k"] == "adt" and t.get("d") in adts or t["k"] == "dyn" and any(x in t["s"] for x in traits)
        for a in lk:
            if a not in adts and a in prog.adts and any(
                    contents(prog, f["ty"], pred) for v in prog.adts[a]["variants"] for f in v["fields"]):
                adts.add(a)
        for t, lst in tr.items():
            for selfty, path in lst:
                b = prog.bodies.get(path)
                if b is None:
                    continue
                s = prog.types[prog.types[b.locals[1]]["a"][0]]
                if s.get("d") in adts:
                    traits.add(t)
        if n == len(adts) + len(traits):
            break
    prog._c06_sig = (adts, traits)
    return adts, traits


def holder(prog):
    adts, traits = significant(prog)
    return lambda t: t["k"] == "adt" and t.get("d") in adts or t["k"] == "dyn" and any(x in t["s"] for x in traits)


def members(prog, b, pred, n):
    """(self argument, store, [(field, element names)]) with lists of n members."""
    t = prog.types[prog.types[b.locals[1]]["a"][0]]
    fields, want = {}, []
    for f in prog.adts[t["d"]]["variants"][0]["fields"]:
        if not contents(prog, f["ty"], pred):
            continue
        ft = prog.types[f["ty"]]
        if ft["k"] == "adt" and ft["d"] == "alloc::vec::Vec":
            names = ["M:%s%d" % (f["name"], i) for i in range(n)]
            fields[f["name"]] = ("t", None, tuple(mk(x, ft["a"][0]) for x in names))
        else:
            names = ["M:%s" % f["name"]]
            fields[f["name"]] = mk(names[0], f["ty"])
        want.append((f["name"], names))
    slf, store = obj(prog, b, 1, "self", fields)
    return slf, store, want, t["d"]


def composite(prog, rep, tier):
    """Resolving a compound rule resolves, against the same names, every part of it that has columns."""
    pred = holder(prog)
    for adt, bodies in sorted(lookups(prog).items()):
        for b in bodies:
            if len(prog.adts.get(adt, {}).get("variants", ())) != 1:
                rep.unk("composite", b.path, "not a struct")
                continue
            if uses_names(prog, b) and adt != "cdx::column::ScopedValues":
                continue
            if adt not in significant(prog)[0]:
                continue
            slots = [None] if b.nargs < 3 else [0, 1]
            bad, cases = None, 0
            try:
                for n in ((2, 3) if b.nargs < 3 else (1, 2)):
                    for k in slots:
                        slf, store, want, d = members(prog, b, pred, n)
                        args = {1: slf, 2: mk("NAMES", b.locals[2])}
                        if k is not None:
                            args[3] = ("c", k)

                        def hook(eng, st, call):
                            c = call.callee
                            if c is None or not call.args:
                                return None
                            if c.name in ("lookup", "lookup_n") and len(call.args) > 1:
                                v = deepval(eng, st, call.args[0])
                                nm = v[1] if v[0] == "m" and isinstance(v[1], str) else ""
                                if "M:" not in nm:
                                    loc = eng.deref(call.args[0])
                                    nm = eng.locname(*loc) if loc else nm
                                if "M:" not in nm:
                                    return None
                                m = re.search(r"M:\w+", nm).group()
                                with_names = "NAMES" in repr(deepval(eng, st, call.args[1])) or "NAMES" in repr(call.args[1])
                                slot = call.args[2] if len(call.args) > 2 else None
                                slot = slot[1] if slot and slot[0] == "c" else None
                                s, f = st.copy(), st.copy()
                                s.mon = st.mon + ((m, with_names, slot),)
                                s.note("%s is resolved" % m)
                                f.note("%s cannot be resolved" % m)
                                loc = eng.deref(call.args[0])
                                if loc and b.nargs > 2 and loc[0][0] in ("O", "L"):
                                    old = eng.read(s, loc[0], loc[1])
                                    if old[0] == "m":
                                        eng.write(s, loc[0], loc[1], ("m", "M:done", old[2], ()))
                                return [(("e", RES, 0, (UNIT,)), s), (("e", RES, 1, (("m", "err", None, ()),)), f)]
                            x = XMODELS.get(c.target) if (c.target or "").startswith("alloc::vec::Vec::<T, A>::") else None
                            if x is not None:
                                return x(None, eng, st, call)
                            if c.name == "clone" and c.trait == "core::clone::Clone":
                                v = deepval(eng, st, call.args[0])
                                if v[0] == "m" and v[1].startswith("M:"):
                                    return [(("m", "M:copy", v[2], ()), st)]
                            if c.target == "cdx::expr::Expr::new":
                                dty = eng.placetype(call.body, call.term["d"])
                                ity = prog.types[dty]["a"][0]
                                return [(("e", RES, 0, (("m", "M:copy", ity, ()),)), st)]
                            return None
                        r = outcomes(prog, b.path, args, store=store, hook=hook, join_k=500, head_k=200)
                        good = 0
                        for v, st in r.outs:
                            vi = variant_of(r.eng, st, v)
                            if vi != 0:
                                continue
                            good += 1
                            cases += 1
                            done = {x[0] for x in st.mon}
                            if any(not x[1] for x in st.mon):
                                bad = bad or ("a part is resolved against something other than the names given", st.trace())
                            for fld, names in want:
                                if b.nargs > 2 and len(names) == n and names[0] != "M:" + fld and adt not in LISTS:
                                    # one entry per file: that of this file
                                    cur = field_val(prog, r.eng, st, d, fld)
                                    if cur is None or cur[0] != "t":
                                        raise Undecided("list %s is not known afterwards" % fld)
                                    if len(cur[2]) <= k or r.eng.nm(cur[2][k]) != "M:done":
                                        bad = bad or ("succeeds for file %d without resolving %s[%d]" % (k, fld, k), st.trace())
                                    continue
                                for x in names:
                                    if x not in done:
                                        bad = bad or ("succeeds without resolving %s" % x[2:], st.trace())
                            if b.nargs > 2 or b.path.endswith("::lookup"):
                                for m, w, slot in st.mon:
                                    if slot is not None and slot != (k or 0):
                                        bad = bad or ("resolves for file %s when asked for file %s" % (slot, k or 0), st.trace())
                        if not good:
                            raise Undecided("no successful outcome")
            except Undecided as e:
                rep.unk("composite", b.path, e)
                continue
            if bad:
                rep.bad("composite", b.path, where(b), bad[0], bad[1])
            else:
                rep.ok("composite", "%s (%d outcomes)" % (b.path, cases))


LISTS = ("cdx::comp::LineCompList",)


def field_val(prog, eng, st, adt, fld):
    for (k, v) in st.store.items():
        if k[0] == "O" and k[1] == "self*":
            i = [j for j, f in enumerate(prog.adts[adt]["variants"][0]["fields"]) if f["name"] == fld][0]
            return eng.child(v, ("f", i), None, "." + fld)
    return None



def strs(*xs):
    return ("t", None, tuple(("s", x) for x in xs))


def fixed(eng, v):
    """Integer of an abstract number, or None."""
    return v[1] if v[0] == "c" else None


def self_field(prog, eng, st, adt, fld):
    v = field_val(prog, eng, st, adt, fld)
    if v is None:
        raise Undecided("object lost")
    return eng.norm(st, v)


HS = "std::collections::hash::set::HashSet"


def set_hook(eng, st, call, c):
    t = c.fn or ""
    if not t.startswith(HS):
        return None
    if c.name in ("new", "with_capacity"):
        return [(("t", None, ()), st)]
    if c.name == "insert":
        loc = eng.deref(call.args[0])
        x = eng.read(st, loc[0], loc[1])
        if x[0] != "t":
            return None
        eng.write(st, loc[0], loc[1], ("t", None, x[2] + (call.args[1],)))
        return [(TRUE if call.args[1] not in x[2] else FALSE, st)]
    if c.name == "contains":
        x = deepval(eng, st, call.args[0])
        k = deepval(eng, st, call.args[1])
        if x[0] != "t" or k[0] != "c":
            return None
        return [(TRUE if k in x[2] else FALSE, st)]
    return None


def list_hook(eng, st, call):
    c = call.callee
    if c is None:
        return None
    if (c.target or "").startswith("alloc::vec::Vec::<T"):
        x = XMODELS.get(c.target)
        if x is not None:
            return x(None, eng, st, call)
    return set_hook(eng, st, call, c)


def named_col(prog, rep):
    p = "cdx::column::NamedCol::lookup"
    b = prog.bodies[p]
    bad, cases = None, 0
    for name in ("a", ""):
        for names in (("a", "b"), ("b", "a"), ("c", "b", "a"), ("c",), ("ab", "A", "a")):
            for fe in (0, 1, 2, 3):
                if name and fe:
                    continue
                for num in (0, 5):
                    slf, store = obj(prog, b, 1, "self", {"name": ("s", name), "num": ("c", num), "from_end": ("c", fe)})
                    r = outcomes(prog, p, {1: slf, 2: ("kp", strs(*names))}, store=store, hook=list_hook)
                    want = names.index("a") if name and "a" in names else None if name else num if not fe else len(names) - fe if fe <= len(names) else None
                    if not r.outs:
                        raise Undecided("no outcome")
                    for v, st in r.outs:
                        cases += 1
                        vi = variant_of(r.eng, st, v)
                        if vi is None:
                            raise Undecided("outcome is %s" % (v,))
                        q = "name %r" % name if name else "column +%d" % fe if fe else "column number %d" % num
                        if vi == 1 and want is not None:
                            bad = bad or ("%s is refused although the file has columns %s" % (q, names), st.trace())
                        elif vi == 0:
                            got = fixed(r.eng, self_field(prog, r.eng, st, "cdx::column::NamedCol", "num"))
                            if got is None:
                                raise Undecided("column number unknown")
                            if got != want:
                                bad = bad or ("%s becomes column %s (counted from 0) although the file has columns %s%s" % (
                                    q, got, list(names), "; it was column %d of an earlier file" % num if got == num else ""), st.trace())
    done(rep, b, "NamedCol::lookup", bad, cases)


def done(rep, b, what, bad, cases):
    if bad:
        rep.bad("leaves", what, where(b), bad[0], bad[1])
    elif cases:
        rep.ok("leaves", "%s (%d cases)" % (what, cases))
    else:
        rep.unk("leaves", what, "nothing explored")


def column_set(prog, rep):
    p = "cdx::column::ColumnSet::lookup"
    b = prog.bodies[p]
    A = "cdx::column::ColumnSet"
    fs = {f["name"]: f["ty"] for f in prog.adts[A]["variants"][0]["fields"]}
    pty = prog.types[fs["pos"]]["a"][0]
    oty = prog.types[fs["columns"]]["a"][0]
    pa, oa = prog.adts[prog.adt_of(pty)]["variants"][0]["fields"], prog.adts[prog.adt_of(oty)]["variants"][0]["fields"]
    ip = [i for i, f in enumerate(pa) if f["name"] == "val"][0]
    io = [i for i, f in enumerate(oa) if f["name"] == "num"][0]

    def part(x):
        return ("m", "part:" + x, pty, ((("f", ip), ("s", x)),))

    def col(n, tag):
        return ("m", "col:%s%d" % (tag, n), oty, ((("f", io), ("c", n)),))
    RNG = {"p": [2], "q": [0, 1], "r": [1, 2], "bad": None}
    bad, cases = None, 0
    for pos in ((), ("p",), ("q", "p"), ("p", "r"), ("q", "bad")):
        for neg in ((), ("p",), ("r",), ("q", "p"), ("bad",)):
            def hook(eng, st, call):
                c = call.callee
                if c is not None and c.target == "cdx::column::ColumnSet::range":
                    nm = deepval(eng, st, call.args[1])
                    if nm[0] != "s" or nm[1] not in RNG:
                        raise Undecided("range of %s" % (nm,))
                    if deepval(eng, st, call.args[0]) != NM:
                        st.mon = st.mon + ("other names",)
                    r = RNG[nm[1]]
                    if r is None:
                        return [(("e", RES, 1, (("m", "err", None, ()),)), st)]
                    return [(("e", RES, 0, (("t", None, tuple(col(x, "") for x in r)),)), st)]
                return list_hook(eng, st, call)
            NM = strs("x", "y", "z")
            slf, store = obj(prog, b, 1, "self", {"pos": ("t", None, tuple(part(x) for x in pos)), "neg": ("t", None, tuple(part(x) for x in neg)),
                                                 "columns": ("t", None, (col(7, "old"),))})
            r = outcomes(prog, p, {1: slf, 2: ("kp", NM)}, store=store, hook=hook, join_k=500, head_k=200)
            no = {x for q in neg for x in RNG[q] or ()}
            want = None if "bad" in pos + neg else [x for x in ([y for q in pos for y in RNG[q]] if pos else range(3)) if x not in no]
            for v, st in r.outs:
                cases += 1
                vi = variant_of(r.eng, st, v)
                q = "%s without %s" % ([RNG[x] for x in pos] or "all", [RNG[x] for x in neg])
                if vi is None:
                    raise Undecided("outcome unknown")
                if vi == 1:
                    if want is not None:
                        bad = bad or ("%s is refused" % q, st.trace())
                    continue
                if want is None:
                    bad = bad or ("a column that does not exist is ignored (%s)" % q, st.trace())
                    continue
                if "other names" in st.mon:
                    bad = bad or ("a range is resolved against other names than the ones given", st.trace())
                cur = self_field(prog, r.eng, st, A, "columns")
                if cur[0] != "t":
                    raise Undecided("columns unknown: %s" % (cur,))
                got = []
                for x in cur[2]:
                    n = r.eng.norm(st, r.eng.child(deepval(r.eng, st, x), ("f", io), None, ".num"))
                    if n[0] != "c":
                        raise Undecided("column number unknown: %s" % (n,))
                    got.append(n[1])
                if got != want:
                    bad = bad or ("%s selects columns %s of a three column file%s" % (q, got, " (column 7 is left from an earlier file)" if 7 in got else ""), st.trace())
    done(rep, b, "ColumnSet::lookup", bad, cases)


def expr(prog, rep):
    p = "cdx::expr::Expr::lookup"
    b = prog.bodies[p]
    A = "cdx::expr::Expr"
    fs = {f["name"]: f["ty"] for f in prog.adts[A]["variants"][0]["fields"]}
    vty = prog.types[fs["vars"]]["a"][0]
    va = prog.adts[prog.adt_of(vty)]["variants"][0]["fields"]
    iv = {f["name"]: i for i, f in enumerate(va)}

    def var(name, col):
        o = ("e", OPT, 0, ()) if col is None else ("e", OPT, 1, (("c", col),))
        return ("m", "var:" + name, vty, tuple(sorted([(("f", iv["name"]), ("s", name)), (("f", iv["col"]), o)], key=repr)))
    bad, cases = None, 0
    for declared in ((), ("v",)):
        for before in (None, 0, 1):
            for names in (("a",), ("b", "a"), ("a", "b"), ("b",), ("b", "v")):
                def hook(eng, st, call):
                    c = call.callee
                    if c is None:
                        return None
                    if c.target == "cdx::expr::Expr::parse" or c.target == "cdx::expr::Expr::parse_self":
                        v = deepval(eng, st, call.args[0])
                        j = [i for i, f in enumerate(prog.adts[A]["variants"][0]["fields"]) if f["name"] == "vars"][0]
                        cur = eng.child(v, ("f", j), None, ".vars")
                        if cur[0] != "t":
                            raise Undecided("variables unknown")
                        have = [eng.child(deepval(eng, st, x), ("f", iv["name"]), None, ".name") for x in cur[2]]
                        if ("s", "a") not in have:
                            loc = eng.deref(call.args[0])
                            eng.write(st, loc[0], loc[1] + proj_of(b, prog, A, "vars"),
                                      ("t", None, cur[2] + (var("a", None),)))
                        st.mon = st.mon + ("parsed",)
                        return [(("e", RES, 0, (UNIT,)), st)]
                    if c.name == "captures":
                        return [(("e", OPT, 0, ()), st)]
                    return list_hook(eng, st, call)
                vs = tuple(var(x, None) for x in declared) + ((var("a", before),) if before is not None else ())
                slf, store = obj(prog, b, 1, "self", {"expr_str": ("s", "a+1"), "vars": ("t", None, vs)})
                r = outcomes(prog, p, {1: slf, 2: ("kp", strs(*names))}, store=store, hook=hook, join_k=500, head_k=200)
                want = names.index("a") if "a" in names else None
                for v, st in r.outs:
                    cases += 1
                    vi = variant_of(r.eng, st, v)
                    if vi is None:
                        raise Undecided("outcome unknown")
                    was = "" if before is None else " (it was column %d of the previous file)" % before
                    if vi == 1:
                        if want is not None:
                            bad = bad or ("an expression over column a is refused although the file has columns %s%s" % (list(names), was), st.trace())
                        continue
                    if "parsed" not in st.mon:
                        raise Undecided("expression not parsed")
                    cur = self_field(prog, r.eng, st, A, "vars")
                    if cur[0] != "t":
                        raise Undecided("variables unknown")
                    for x in cur[2]:
                        x = deepval(r.eng, st, x)
                        if r.eng.child(x, ("f", iv["name"]), None, ".name") != ("s", "a"):
                            continue
                        got = r.eng.norm(st, r.eng.child(x, ("f", iv["col"]), None, ".col"))
                        if got[0] != "e" or got[2] == 1 and got[3][0][0] != "c":
                            raise Undecided("column unknown: %s" % (got,))
                        got = got[3][0][1] if got[2] == 1 else None
                        if want is None:
                            bad = bad or ("an expression over column a is accepted although the file has columns %s%s" % (list(names), was), st.trace())
                        elif got != want:
                            bad = bad or ("an expression over column a uses column %s although the file has columns %s%s" % (got, list(names), was), st.trace())
    done(rep, b, "Expr::lookup", bad, cases)


def proj_of(b, prog, adt, fld):
    i = [j for j, f in enumerate(prog.adts[adt]["variants"][0]["fields"]) if f["name"] == fld][0]
    return ((("f", i), prog.adts[adt]["variants"][0]["fields"][i]["ty"], "." + fld),)


def single(prog, rep):
    p = "cdx::column::ColumnSet::single"
    b = prog.bodies[p]
    names = ("a", "b", "c")
    bad, cases = None, 0
    for q, want in (("a", 0), ("c", 2), ("zz", None), ("1", 0), ("3", 2), ("+1", 2), ("+3", 0), ("+4", None)):
        r = outcomes(prog, p, {1: ("kp", strs(*names)), 2: ("s", q)}, hook=num_hook)
        for v, st in r.outs:
            cases += 1
            vi = variant_of(r.eng, st, v)
            got = r.eng.norm(st, r.eng.payload(v, 0, 0)) if vi == 0 else None
            if vi is None or got is not None and got[0] != "c":
                raise Undecided("outcome of %r unknown: %s" % (q, v))
            got = got[1] if got else None
            if got != want:
                bad = bad or ("column %r of a file with columns a b c resolves to %s" % (q, got), st.trace())
    done(rep, b, "ColumnSet::single", bad, cases)


def num_hook(eng, st, call):
    c = call.callee
    if c is not None and c.name == "to_usize_whole":
        v = deepval(eng, st, call.args[0])
        if v[0] == "s" and v[1].isdigit():
            return [(("e", RES, 0, (("c", int(v[1])),)), st)]
        raise Undecided("number from %s" % (v,))
    return list_hook(eng, st, call)


def leaves(prog, rep, tier):
    """Column names, column sets and expressions are resolved anew from the names given: the right column, an error if
    there is none, and nothing left over from an earlier file."""
    for f in (named_col, column_set, expr, single):
        try:
            f(prog, rep)
        except (Undecided, KeyError, IndexError) as e:
            rep.unk("leaves", f.__name__, "%s: %s" % (type(e).__name__, e))



COLUSE = re.compile(r"\b(header|rec):(F\d+)(?::\d+)?,col\([^@]*@(F\d+|\?)\)")
SLOTS = re.compile(r"q:\w+_n\(([^|]+)\|[^,]*?rec:(F\d+):[^,]*,[^,]*?rec:(F\d+):[^,]*,(\d+),(\d+)\)$")


def tool_runs(prog, rep, tier):
    """In every tool: before a rule with columns is used on a record of a file, it has been resolved against the names
    of that file (the latest resolution counts)."""
    adts, traits = significant(prog)

    def judge(job, rep):
        tool, path, label, files, opts = job
        nm = ("%s %s" % (tool, label)).strip()
        w = toolruns.run(prog, path, files, opts)
        used = 0
        for v, st in w.exits:
            last, plain = {}, {}
            for e in st.mon[1]:
                if e[0] == "push":
                    # a list of parts none of which has columns needs no resolving
                    m = re.match(r"[\w:]+$", e[3] or "")
                    plain[e[1]] = plain.get(e[1], True) and bool(m) and e[3] in prog.adts and e[3] not in adts
                elif e[0] == "lookup":
                    if e[3] is None or e[3] == 0:
                        last[(e[1], None)] = set(e[2])
                    if e[3] is not None:
                        last[(e[1], e[3])] = set(e[2])
                elif e[0] == "act":
                    a = w.recv_adt.get(e[2])
                    if a not in adts or plain.get(e[2]):
                        continue
                    fs = {x[0] for x in REC.findall(e[3])}
                    if not fs:
                        continue
                    used += 1
                    have = set()
                    for (r, slot), names in last.items():
                        if r == e[2]:
                            have |= names
                    for f in sorted(fs - have):
                        rep.bad("tool_runs", "%s:%s" % (tool, e[2]), where(prog.bodies[path]),
                                "%s uses %s on a record of %s without having resolved it against the columns of %s%s" % (
                                    nm, e[2].strip("<>"), f, f, " (last resolved for %s)" % ", ".join(sorted(have)) if have else ""), st.trace())
                elif e[0] == "w":
                    for src, f, at in COLUSE.findall(e[2]):
                        used += 1
                        if f != at:
                            rep.bad("tool_runs", "%s:column" % tool, where(prog.bodies[path]),
                                    "%s takes a column of %s that was %s" % (nm, f, "resolved for %s" % at if at != "?" else "never resolved"), st.trace())
            for q in st.asm:
                m = SLOTS.match(q)
                if m and m.group(1) in {x[0] for x in last}:
                    used += 1
                    for f, slot in ((m.group(2), int(m.group(4))), (m.group(3), int(m.group(5)))):
                        have = last.get((m.group(1), slot))
                        if have is not None and f not in have or have is None and slot:
                            rep.bad("tool_runs", "%s:slot" % tool, where(prog.bodies[path]),
                                    "%s compares a record of %s with columns resolved for %s" % (nm, f, sorted(have or ["no file"])), st.trace())
        rep.ok("tool_runs", "%s (%d outcomes, %d uses of rules with columns)" % (nm, len(w.exits), used))
    par(rep, toolruns.jobs(prog, rep, "tool_runs"), judge)



def sorter(prog, rep, tier):
    """Sorter::add_file resolves the sort keys against the first file before any of its data is stored."""
    cand = [p for p in prog.bodies if p.endswith("Sorter::add_file")]
    for p in cand:
        b = prog.bodies[p]

        def hook(eng, st, call):
            c = call.callee
            if c is None:
                return None
            if c.name == "check" and call.args:
                out = []
                for v in (TRUE, FALSE):
                    s = st.copy()
                    s.mon = st.mon + (("first" if v == TRUE else "later"),)
                    s.note("the header is %s" % ("new" if v == TRUE else "that of an earlier file"))
                    out.append((("e", RES, 0, (v,)), s))
                return out
            if c.name in ("lookup", "lookup_n"):
                st.mon = st.mon + ("lookup",)
                return [(("e", RES, 0, (UNIT,)), st)]
            if c.name in ("add_data", "add"):
                st.mon = st.mon + (c.name,)
                st.note("data is stored")
                return [(("e", RES, 0, (UNIT,)), st)]
            return None
        try:
            r = outcomes(prog, p, hook=hook)
            n, bad = 0, None
            for v, st in r.outs:
                if variant_of(r.eng, st, v) != 0:
                    continue
                if "first" in st.mon:
                    n += 1
                    i = st.mon.index("lookup") if "lookup" in st.mon else None
                    j = min([k for k, x in enumerate(st.mon) if x in ("add", "add_data")], default=len(st.mon))
                    if i is None or i > j:
                        bad = bad or ("the data of the first file is stored before its columns are resolved", st.trace())
            if not n:
                raise Undecided("no first file")
        except Undecided as e:
            rep.unk("sorter", p, e)
            continue
        if bad:
            rep.bad("sorter", p, where(b), bad[0], bad[1])
        else:
            rep.ok("sorter", "%s (%d outcomes)" % (p, n))


def merging(prog, rep, tier):
    """SortConfig::merge resolves the keys against the files before their records are compared."""
    p = "cdx::sort::SortConfig::merge"
    b = prog.bodies.get(p)
    if b is None:
        rep.unk("merging", p, "not found")
        return
    opq = [q for q in prog.bodies if q.startswith("cdx::sort::SortConfig::merge_open")]
    for n in (1, 2, 3):
        fl = tuple("F%d" % i for i in range(n))
        w = World(prog, files=fl, shapes=(-1, 1), opaque=opq)
        try:
            w.run(p, {2: ("kp", ("t", None, tuple(("s", f) for f in fl))), 3: ("m", "<cmp>", b.locals[3], ())}, steps=60000)
        except Undecided as e:
            rep.unk("merging", "%d files" % n, e)
            continue
        cnt, bad = 0, None
        for v, st in w.exits:
            if not isok(v):
                continue
            cnt += 1
            opened = [e[1] for e in st.mon[1] if e[0] == "open" and e[2] != -1]
            if opened and not any(e[0] == "lookup" for e in st.mon[1]):
                bad = bad or ("the files are merged without having resolved the keys", st.trace())
        if bad:
            rep.bad("merging", p, where(b), bad[0], bad[1])
        elif cnt:
            rep.ok("merging", "%d files (%d outcomes)" % (n, cnt))
        else:
            rep.unk("merging", "%d files" % n, "no successful outcome")


RULES = [composite, leaves, tool_runs, sorter, merging]
