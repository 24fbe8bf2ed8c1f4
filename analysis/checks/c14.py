"""C14: relational operators mean what they say."""
import re
from .common import *

OP = "cdx::util::CompareOp"
ACC = {"LT": {0}, "GT": {2}, "LE": {0, 1}, "GE": {1, 2}, "EQ": {1}, "NE": {0, 2}}
SWAP = {"LT": "GT", "GT": "LT", "LE": "GE", "GE": "LE", "EQ": "EQ", "NE": "NE"}
SPELL = {"LT": ["lt", "LT", "Lt", "<"], "GT": ["gt", "GT", ">"], "LE": ["le", "LE", "<="], "GE": ["ge", "GE", ">="],
         "EQ": ["eq", "EQ", "=="], "NE": ["ne", "NE", "!="]}


def ops(prog):
    return [v["name"] for v in variants(prog, OP)]


def ord_table(prog, rep, tier):
    """CompareOp::ord_ok, evaluated on every operator and every ordering, accepts exactly the orderings the operator names."""
    path = OP + "::ord_ok"
    for o in ops(prog):
        if o not in ACC:
            rep.unk("ord_table", o, "operator unknown to the table")
            continue
        for i, od in enumerate(ORDS):
            r = outcomes(prog, path, {1: ("kp", enumval(prog, OP, o)), 2: od})
            got = {boolof(r.eng, s, v) for v, s in r.outs}
            if None in got or not got:
                rep.unk("ord_table", "%s/%s" % (o, ORDN[i]), "verdict not constant")
            elif got == {i in ACC[o]}:
                rep.ok("ord_table", "%s on %s is %s" % (o, ORDN[i], got))
            else:
                rep.bad("ord_table", "%s/%s" % (o, ORDN[i]), where(prog.bodies[path]),
                        "operator %s answers %s for ordering %s" % (o, got, ORDN[i]))


def invert_table(prog, rep, tier):
    """CompareOp::invert maps each operator to the one with its operands swapped."""
    path = OP + "::invert"
    for o in ops(prog):
        r = outcomes(prog, path, {1: ("kp", enumval(prog, OP, o))})
        got = {variant_of(r.eng, s, v) for v, s in r.outs}
        names = {ops(prog)[x] if x is not None else None for x in got}
        if None in names or not names:
            rep.unk("invert_table", o, "not constant")
        elif names == {SWAP.get(o)}:
            rep.ok("invert_table", "%s -> %s" % (o, names))
        else:
            rep.bad("invert_table", o, where(prog.bodies[path]), "inverting %s gives %s" % (o, sorted(names)))


def spellings(prog, rep, tier):
    """CompareOp::from_str, evaluated on every documented spelling, yields that operator; anything else is an error."""
    path = "<%s as core::str::traits::FromStr>::from_str" % OP
    for o, sp in list(SPELL.items()) + [(None, ["", "=", "<>", "xx", "=<"])]:
        for s in sp:
            r = outcomes(prog, path, {1: ("s", s)})
            got = set()
            for v, st in r.outs:
                vi = variant_of(r.eng, st, v)
                if vi == 1:
                    got.add("error")
                elif vi == 0:
                    w = variant_of(r.eng, st, r.eng.payload(v, 0, 0))
                    got.add(ops(prog)[w] if w is not None else None)
                else:
                    got.add(None)
            if None in got or not got:
                rep.unk("spellings", s, "not constant")
            elif got == {o or "error"}:
                rep.ok("spellings", "%r is %s" % (s, got))
            else:
                rep.bad("spellings", repr(s), where(prog.bodies[path]), "spelling %r gives %s" % (s, sorted(got)))


def is_ordering_call(prog, call):
    d = call.term["d"]
    ty = call.body.locals[d[0]] if not d[1] else None
    return ty is not None and prog.adt_of(ty) == ORD


def line_verdict(prog, rep, tier):
    """CompareOp::line_ok and line_ok_verbose, for every operator and every outcome of the value-versus-line comparison,
    return (line OP value); the two forms therefore agree."""
    for fn in ("line_ok", "line_ok_verbose"):
        path = "%s::%s" % (OP, fn)
        for o in ops(prog):
            for i, od in enumerate(ORDS):
                def hook(eng, st, call, od=od):
                    if call.callee and call.callee.name and call.callee.name.startswith("comp_self"):
                        return [(od, st)]
                    return None
                try:
                    r = outcomes(prog, path, {1: ("kp", enumval(prog, OP, o))}, hook=hook)
                except Undecided as e:
                    rep.unk("line_verdict", fn, e)
                    continue
                got = {boolof(r.eng, s, v) for v, s in r.outs}
                want = (2 - i) in ACC[o]
                if None in got or not got:
                    rep.unk("line_verdict", "%s %s/%s" % (fn, o, ORDN[i]), "not constant")
                elif got == {want}:
                    rep.ok("line_verdict", "%s: line %s value with value-vs-line %s is %s" % (fn, o, ORDN[i], want))
                else:
                    rep.bad("line_verdict", "%s:%s/%s" % (fn, o, ORDN[i]), where(prog.bodies[path]),
                            "%s(%s) answers %s when the value compares %s to the line" % (fn, o, got, ORDN[i]))


def two_sided(prog, rep, tier):
    """CheckLine::line_ok, CheckLine::line_ok_verbose and CheckBuff::buff_ok accept exactly when the first bound holds and
    the second bound, if there is one, holds as well, each against its own value."""
    targets = [("cdx::util::CheckLine", "line_ok"), ("cdx::util::CheckLine", "line_ok_verbose"),
               ("cdx::util::CheckBuff", "buff_ok")]
    for ty, fn in targets:
        path = "%s::%s" % (ty, fn)
        if path not in prog.bodies:
            rep.unk("two_sided", path, "no such function")
            continue
        combos = [("LT", None), ("GE", None), ("GT", "LT"), ("LE", "GE"), ("NE", "EQ"), ("EQ", "NE"), ("LE", "LE")]
        if tier == "thorough":
            combos = [(a, b) for a in ACC for b in [None] + list(ACC)]
        for o1, o2 in combos:
            for i1 in range(3):
                for i2 in (range(3) if o2 else [0]):
                    asm = {"self*.op": ev(prog, OP, o1),
                           "self*.op2": ("ev", 1, 1) if o2 else ("ev", 0, 0)}
                    asm["self*.val2"] = asm["self*.op2"]
                    if o2:
                        asm["self*.op2@Some.0"] = ev(prog, OP, o2)

                    def hook(eng, st, call, i1=i1, i2=i2):
                        c = call.callee
                        if c is None or not c.name:
                            return None
                        if c.name == "set" and "omp" in (c.target or "") and len(call.args) >= 2:
                            n = eng.nm(deepval(eng, st, call.args[1])) or "?"
                            st.mon = "2" if "val2" in n else ("1" if ".val" in n else "?")
                            dty = eng.placetype(call.body, call.term["d"])
                            if dty is not None and prog.adt_of(dty) == RES:
                                n2 = st.copy()
                                return [(("e", RES, 0, (UNIT,)), st), (("e", RES, 1, (TOP,)), n2)]
                            return [(UNIT, st)]
                        if c.name.startswith("comp_self"):
                            which = st.mon
                            if "CheckBuff" in path:
                                n = eng.nm(deepval(eng, st, call.args[0])) or "?"
                                which = "2" if "val2" in n else ("1" if ".val" in n else "?")
                            if which == "1":
                                return [(ORDS[i1], st)]
                            if which == "2":
                                return [(ORDS[i2], st)]
                            raise Undecided("comparison against unknown value")
                        return None
                    key = "%s %s%s" % (fn, o1, " and " + o2 if o2 else "")
                    try:
                        r = outcomes(prog, path, asm=asm, hook=hook, init="0")
                    except Undecided as e:
                        rep.unk("two_sided", key, e)
                        continue
                    want = (2 - i1) in ACC[o1] and (not o2 or (2 - i2) in ACC[o2])
                    got = set()
                    for v, s in r.outs:
                        if fn != "buff_ok":
                            vi = variant_of(r.eng, s, v)
                            if vi == 1:
                                continue
                            v = r.eng.payload(v, 0, 0)
                        got.add(boolof(r.eng, s, v))
                    if None in got or not got:
                        rep.unk("two_sided", key, "not constant")
                    elif got == {want}:
                        rep.ok("two_sided", "%s with %s/%s is %s" % (key, ORDN[i1], ORDN[i2], want))
                    else:
                        rep.bad("two_sided", "%s:%s" % (ty.split("::")[-1], key), where(prog.bodies[path]),
                                "%s answers %s when the bounds' values compare %s/%s to the record" % (key, got, ORDN[i1], ORDN[i2]))


def field_source(prog, rep, tier):
    """The operators and values of a check are built from the corresponding parts of its specification (first operator from
    the first, second from the second, likewise the values)."""
    # CheckLine::set_with writes self's fields; CheckBuff::new_with returns them
    def names(eng, st, v, d=0):
        """All opaque names an abstract value is built from."""
        out = set()
        v = deepval(eng, st, v)
        if v[0] == "m":
            out.add(v[1])
            o = ("O", v[1] + "*")
            for r in list(st.store):
                if r[:2] == o and d < 6:
                    out |= names(eng, st, st.store[r], d + 1)
            for k, x in v[3]:
                out |= names(eng, st, x, d + 1)
        elif v[0] in ("t", "e") and d < 6:
            for x in v[2 if v[0] == "t" else 3]:
                out |= names(eng, st, x, d + 1)
        return out
    want = {"op": "op1", "val": "val1", "op2": "op2", "val2": "val2"}
    for ty, fn, rarg, inself in (("cdx::util::CheckLine", "set_with", 2, True), ("cdx::util::CheckBuff", "new_with", 2, False)):
        path = "%s::%s" % (ty, fn)
        b = prog.bodies.get(path)
        if b is None:
            rep.unk("field_source", path, "no such function")
            continue

        def hook(eng, st, call):
            c = call.callee
            if c and c.name == "set" and c.trait == "cdx::comp::Compare":
                loc = eng.deref(call.args[0])
                n = eng.nm(deepval(eng, st, call.args[1]))
                if loc and n:
                    eng.write(st, loc[0], loc[1], mk("set(%s)" % n))
                return [(UNIT, st)]
            return None
        for two in (0, 1):
            rname = b.varname(rarg) or "r"
            asm = {"%s*.op2" % rname: ("ev", two, two), "%s*.val2" % rname: ("ev", two, two)}
            r = outcomes(prog, path, {rarg: mk(rname, b.locals[rarg])}, asm=asm, hook=hook,
                         relevant=lambda p: "FromStr" not in p and "CompMaker" not in p)
            fields = [f["name"] for f in prog.adts[ty]["variants"][0]["fields"]]
            for v, st in r.outs:
                if variant_of(r.eng, st, v) != 0:
                    continue
                for f in want:
                    if f not in fields:
                        continue
                    if inself:
                        obj = r.eng.pointee(st, mk("self", b.locals[1]))
                    else:
                        obj = r.eng.payload(v, 0, 0)
                    x = r.eng.child(obj, ("f", fields.index(f)), None, "." + f)
                    if f in ("op2", "val2"):
                        vi = variant_of(r.eng, st, x)
                        if vi is not None and vi != two:
                            rep.bad("field_source", "%s:%s" % (path, f), where(b), "second bound is %s although the specification's is %s" % (
                                "set" if vi else "dropped", "present" if two else "absent"))
                            continue
                        if not two:
                            rep.ok("field_source", "%s.%s absent when not specified" % (ty, f))
                            continue
                    ns = names(r.eng, st, x)
                    srcs = {s for s in ("op1", "op2", "val1", "val2") if any(re.search(r"\.%s\b" % s, n) for n in ns)}
                    if not srcs:
                        rep.unk("field_source", "%s.%s" % (ty, f), "source not visible: %s" % sorted(ns)[:3])
                    elif srcs == {want[f]}:
                        rep.ok("field_source", "%s.%s built from %s" % (ty, f, srcs))
                    else:
                        rep.bad("field_source", "%s:%s" % (path, f), where(b),
                                "field %s is built from the specification's %s instead of its %s" % (f, sorted(srcs), want[f]))


def spec_patterns(prog, rep, tier):
    """Every operator-parsing pattern splits a range specification right after the complete operator, for every spelling."""
    pats = {}
    for p, b in prog.bodies.items():
        if not p.startswith("<cdx::util::RangeSpec") and "cdx::util::RangeSpec" not in p:
            continue
        for s in consts(prog, b):
            if "<" in s and "(" in s:
                pats.setdefault(s, b)
    for s, b in pats.items():
        try:
            rx = re.compile(s)
        except re.error as e:
            rep.unk("spec_patterns", s, e)
            continue
        syms = [x for l in SPELL.values() for x in l if not x.isalpha()]
        words = [x for l in SPELL.values() for x in l if x.isalpha() and x.isupper()]
        use = syms if "<" in s.replace("(?P<", "") else words
        two = s.count("<=") >= 2 or s.count("LE") >= 2
        for o in use:
            for o2 in (use if two else [None]):
                text = o + ("," if o.isalpha() else "") + "5" + (o2 + "7" if o2 else "")
                m = rx.search(text)
                if not m:
                    rep.unk("spec_patterns", "%s on %s" % (s, text), "no match")
                    continue
                g = [x for x in m.groups() if x and (x in syms + words or x[0] in "<>=!")]
                want = [o] + ([o2] if o2 else [])
                if g == want:
                    rep.ok("spec_patterns", "%s splits %s into %s" % (s, text, m.groups()))
                else:
                    rep.bad("spec_patterns", "%s" % s, where(b), "pattern %s splits %r into %s" % (s, text, m.groups()))


def consts(prog, b):
    """String constants mentioned in a body (and its promoteds)."""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "const" and "str" in x:
                out.append(x["str"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(b.bbs)
    return out


RULES = [ord_table, invert_table, spellings, line_verdict, two_sided, field_source, spec_patterns]
