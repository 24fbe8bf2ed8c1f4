"""C22: records are split into columns whenever something reads their columns."""
from ..world import World, XMODELS
from ..models import RES
from ..absint import Undecided, mk, deepval, TRUE, FALSE, UNIT
from .. import toolruns
from . import c11
from .common import par, where, outcomes, obj, impls, variant_of, boolof

TL = "cdx::util::TextLine"
COMP = "cdx::comp::LineCompare"


def touches(x):
    """Does this MIR fragment name the column table of a record?"""
    if isinstance(x, dict):
        return any(touches(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        if len(x) == 5 and x[0] == "f" and x[2] == "parts" and x[3] == TL:
            return True
        return any(touches(y) for y in x)
    return False


def given(prog, p):
    """Is this function given a record (only then can it be reading the columns of one)?"""
    b = prog.bodies.get(p)
    if b is None:
        return False
    if "{closure" in p:
        return True
    return any("util::TextLine" in prog.types[b.locals[i]]["s"] or "util::Reader" in prog.types[b.locals[i]]["s"] for i in range(1, b.nargs + 1))


def column_readers(prog):
    """Functions that read the columns of a record, directly or through what they call."""
    c = getattr(prog, "_c22", None)
    if c is not None:
        return c
    base = set()
    for p, b in prog.bodies.items():
        n = p.rsplit("::", 1)[-1]
        if n in ("clone", "clone_from", "fmt", "clear", "assign", "split", "parts", "default", "new"):
            continue
        if b.nargs and prog.types[b.locals[1]]["k"] == "ref" and prog.types[b.locals[1]].get("m") and prog.adt_of(prog.peel(b.locals[1])) == TL:
            continue
        if prog.adt_of(prog.peel(b.locals[1])) == "cdx::util::TextFileMode" if b.nargs else False:
            continue
        if any(touches(bb["s"]) or touches(bb["t"]) for bb in b.bbs if not bb["c"]):
            base.add(p)
    rev = {}
    for p, b in prog.bodies.items():
        s = set(prog.fn_refs(b))
        for i, t in b.calls():
            k = prog.callee(t)
            if k is not None and (k.virt or not k.res or k.res == k.fn or k.res in prog.bodies):
                s.update(prog.local_targets(k))
        for x in s:
            rev.setdefault(x, set()).add(p)
    seen, todo = set(base), list(base)
    while todo:
        for q in rev.get(todo.pop(), ()):
            if q not in seen and given(prog, q):
                seen.add(q)
                todo.append(q)
    prog._c22 = seen
    return seen


def leaves(prog, rep, tier):
    """A line comparison any of whose methods reads columns of a record says that it needs splitting."""
    rd = column_readers(prog)
    if not any(p.startswith(TL) for p in rd):
        rep.unk("leaves", TL, "column accessors not found")
        return
    types = {}
    for key, lst in prog.impl_of.items():
        if key.rsplit("::", 1)[0] == COMP:
            for selfty, path in lst:
                types.setdefault(selfty, {})[key.rsplit("::", 1)[1]] = path
    for ty, ms in sorted(types.items()):
        reads = [m for m, p in sorted(ms.items()) if p in rd and m not in ("need_split", "lookup")]
        p = ms.get("need_split") or COMP + "::need_split"
        b = prog.bodies.get(p)
        if b is None:
            rep.unk("leaves", ty, "no need_split")
            continue
        try:
            r = outcomes(prog, p)
            got = {boolof(r.eng, st, v) for v, st in r.outs}
            if not got or None in got:
                raise Undecided("answer not constant")
        except Undecided as e:
            rep.unk("leaves", ty, e)
            continue
        if reads and got != {True}:
            rep.bad("leaves", ty, where(b), "%s says it does not need columns, but %s reads them" % (ty, ", ".join(reads)))
        else:
            rep.ok("leaves", "%s (%s)" % (ty, "reads columns in %s" % ", ".join(reads) if reads else "reads no columns"))


def composites(prog, rep, tier):
    """A rule made of parts needs splitting whenever one of the parts does, wherever it stands."""
    for p, b in sorted(prog.bodies.items()):
        if not p.endswith("::need_split") or not b.nargs:
            continue
        adt = prog.adt_of(prog.peel(b.locals[1]))
        if adt not in prog.adts:
            continue
        fields, names = None, None
        for f in prog.adts[adt]["variants"][0]["fields"]:
            t = prog.types[f["ty"]]
            s = t["s"]
            if COMP in s or "cdx::comp::LineComp" in s and adt != "cdx::comp::LineComp":
                fields = (f, t)
        if fields is None:
            continue
        f, t = fields
        bad, cases = None, 0
        try:
            isvec = t.get("d") == "alloc::vec::Vec"
            for n in (range(4) if isvec else (1,)):
                names = ["M%d" % i for i in range(n)]
                val = ("t", None, tuple(mk(x, t["a"][0]) for x in names)) if isvec else mk("M0", f["ty"])
                slf, store = obj(prog, b, 1, "self", {f["name"]: val})

                def hook(eng, st, call):
                    c = call.callee
                    if c is None or c.name != "need_split" or not call.args:
                        return None
                    v = deepval(eng, st, call.args[0])
                    nm = v[1] if v[0] == "m" else ""
                    i = [k for k in range(n) if nm.startswith("M%d" % k)]
                    if not i:
                        return None
                    out = []
                    for x in (0, 1):
                        s = st.copy()
                        s.mon = st.mon + ((i[0], x),)
                        s.note("part %d %s columns" % (i[0], "needs" if x else "does not need"))
                        out.append((TRUE if x else FALSE, s))
                    return out
                r = outcomes(prog, p, {1: slf}, store=store, hook=hook, join_k=500, head_k=200)
                for v, st in r.outs:
                    a = boolof(r.eng, st, v)
                    if a is None:
                        raise Undecided("answer not constant")
                    cases += 1
                    said = dict(st.mon)
                    if not a:
                        if 1 in said.values():
                            bad = bad or ("says columns are not needed although a part needs them", st.trace())
                        elif len(said) < n:
                            bad = bad or ("with %d parts says columns are not needed without having asked part %d" % (n, min(set(range(n)) - set(said))), st.trace())
            if not cases:
                raise Undecided("nothing explored")
        except Undecided as e:
            rep.unk("composites", p, e)
            continue
        if bad:
            rep.bad("composites", p, where(b), bad[0], bad[1])
        else:
            rep.ok("composites", "%s (%d cases)" % (p, cases))


def used(prog, events, rd):
    """The events in which columns of a record read unsplit are (or may be) read."""
    for e in events:
        if e[0] != "usecol":
            continue
        if e[1] not in ("get", "len", "iter", "into_iter", "vec"):
            tg = {e[1]} | {q for q in prog.bodies if q.endswith(" as %s>::%s" % tuple(e[1].rsplit("::", 1)))}
            if not tg & rd:
                continue
        yield e


def tool_runs(prog, rep, tier):
    """In every tool: a record read while splitting was off has its columns used by nothing, except by a comparison that
    said it needs none."""
    rd = column_readers(prog)

    def judge(job, rep):
        tool, path, label, files, opts = job
        nm = ("%s %s" % (tool, label)).strip()
        w = toolruns.run(prog, path, files, opts)
        offs, told = set(), set()
        for v, st in w.exits:
            ev = st.mon[1]
            plain = {e[1] for e in ev if e[0] == "push"} - {
                e[1] for e in ev if e[0] == "push" and any("<%s as" % e[3] in q for q in rd)}
            no = [e[1] for e in st.mon[1] if e[0] == "need_split" and not e[2]]
            for e in st.mon[1]:
                if e[0] == "unsplit":
                    offs.add(e[1:])
            for e in used(prog, ev, rd):
                if any(e[2] == x or x.startswith(e[2]) and e[2] or e[2].startswith(x) for x in no):
                    continue
                if e[2] in plain or e[1:] in told:
                    continue
                told.add(e[1:])
                rep.bad("tool_runs", "%s:%s:%s" % (tool, e[1], e[2]), where(prog.bodies[path]),
                        "%s: %s reads columns of %s, which was read with splitting turned off" % (nm, " ".join((e[1], e[2])).strip(), e[3]), st.trace())
        rep.ok("tool_runs", "%s (%d outcomes, %d records read unsplit)" % (nm, len(w.exits), len(offs)))
    par(rep, toolruns.jobs(prog, rep, "tool_runs"), judge)


def merging(prog, rep, tier):
    """Merging with keys that need columns: no key reads the columns of a record read with splitting turned off."""
    rd = column_readers(prog)
    js = [(e, sz, ks, un, alt) for e in c11.merge_entries(prog) for sz, ks in (((2,), ((0, 1),)), ((2, 2), ((0, 1), (0, 1))), ((2, 1), ((0, 2), (1,))))
          for un in (0, 1) for alt in (0, 1)]
    if not js:
        rep.unk("merging", "cdx::sort", "no merging routine")

    def judge(job, rep):
        w, p, label, start = c11.merge_world(prog, *job)
        start()
        told, n = set(), 0
        for v, st in w.exits:
            n += 1
            for e in used(prog, st.mon[1], rd):
                if e[1:] not in told:
                    told.add(e[1:])
                    rep.bad("merging", "%s:%s" % (p, e[1]), where(prog.bodies[p]),
                            "%s: %s reads columns of %s, which was read with splitting turned off" % (label, e[1], e[3]), st.trace())
        if not told:
            rep.ok("merging", "%s (%d outcomes)" % (label, n))
    par(rep, js, judge)


OLD = ("t", None, (("s", "left over"),))


def reader(prog, rep, tier):
    """The record reader: with splitting on, the record just read is split; with it off, the record holds nothing left over
    from an earlier record that used the same buffer."""
    p = "cdx::util::Reader::getline"
    b = prog.bodies.get(p)
    if b is None:
        rep.unk("reader", p, "not found")
        return
    fs = [f["name"] for f in prog.adts[TL]["variants"][0]["fields"]]
    bad, cases = None, 0
    try:
        for nlines in (1, 2, 3):
            for curr in range(nlines):
                for on in (0, 1):
                    tl = ("t", TL, tuple(OLD for f in fs))
                    slf, store = obj(prog, b, 1, "self", {"lines": ("t", None, tuple(tl for i in range(nlines))), "curr": ("c", curr),
                                                          "do_split": ("c", on)})

                    def hook(eng, st, call):
                        c = call.callee
                        if c is None:
                            return None
                        if c.name == "read_line" and len(call.args) > 2:
                            loc = eng.deref(call.args[2])
                            out = []
                            for eof in (0, 1):
                                s = st.copy()
                                s.mon = st.mon + (("eof",) if eof else ("read", repr(loc)))
                                if not eof:
                                    eng.write(s, loc[0], loc[1], ("t", None, (("s", "new"),)))
                                out.append((("e", RES, 0, (TRUE if eof else FALSE,)), s))
                            return out
                        if c.name in ("split", "split_plain", "split_quotes", "split_backslash") and "util::" in (c.res or c.fn or ""):
                            st.mon = st.mon + ("split",)
                            for a, t in zip(call.args, call.argtys):
                                if t is not None and prog.types[t]["k"] == "ref" and prog.types[t].get("m"):
                                    loc = eng.deref(a)
                                    if loc is None:
                                        raise Undecided("what is split is not known")
                                    if prog.adt_of(prog.peel(t)) == TL:
                                        st.mon = st.mon + (repr(loc),)
                                        eng.write(st, loc[0], loc[1], ("t", TL, tuple(("s", "split") for f in fs)))
                            return [(UNIT, st)]
                        x = XMODELS.get(c.target) if (c.target or "").startswith("alloc::vec::Vec::<T, A>::") else None
                        return x(None, eng, st, call) if x is not None else None
                    m = outcomes(prog, p, {1: slf}, store=store, hook=hook, steps=20000,
                                 relevant=lambda q: q.startswith(("cdx::util::Reader::", "cdx::util::TextLine::")))
                    for v, st in m.outs:
                        if variant_of(m.eng, st, v) != 0 or "eof" in st.mon:
                            continue
                        ls = field_of(prog, m.eng, st, "lines")
                        if ls is None or ls[0] != "t":
                            raise Undecided("records not known afterwards")
                        cases += 1
                        new = [x for x in ls[2] if x != tl]
                        if len(new) != 1:
                            raise Undecided("%d records changed" % len(new))
                        vals = dict(zip(fs, [m.eng.child(new[0], ("f", i), None, "." + f) for i, f in enumerate(fs)]))
                        if on and vals["parts"] in (OLD, ("t", None, ())) or on and "split" not in st.mon:
                            bad = bad or ("splitting is on, but the record is not split", st.trace())
                        if not on and vals.get("orig") == OLD:
                            bad = bad or ("splitting is off, and the record keeps the text of an earlier record", st.trace())
        if not cases:
            raise Undecided("nothing explored")
    except Undecided as e:
        rep.unk("reader", p, e)
        return
    if bad:
        rep.bad("reader", p, where(b), bad[0], bad[1])
    else:
        rep.ok("reader", "%s (%d cases)" % (p, cases))


def field_of(prog, eng, st, fld):
    for (k, v) in st.store.items():
        if k[0] == "O" and k[1] == "self*":
            i = [j for j, f in enumerate(prog.adts["cdx::util::Reader"]["variants"][0]["fields"]) if f["name"] == fld][0]
            return eng.child(v, ("f", i), None, "." + fld)
    return None


RULES = [leaves, composites, reader, tool_runs, merging]
