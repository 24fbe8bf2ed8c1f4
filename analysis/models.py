"""Transfer functions for std items the analyses need to see through."""

TOP = ("x",)
TRUE = ("c", 1)
FALSE = ("c", 0)
UNIT = ("t", None, ())
RES, OPT, CF, ORD = ("core::result::Result", "core::option::Option", "core::ops::control_flow::ControlFlow",
                     "core::cmp::Ordering")
LESS, EQUAL, GREATER = ("e", ORD, 0, ()), ("e", ORD, 1, ()), ("e", ORD, 2, ())


def garg(eng, v, i):
    """i-th generic argument type of an opaque value's type."""
    if v[0] == "m" and v[2] is not None:
        t = eng.p.types[v[2]]
        while t["k"] in ("ref", "ptr"):
            t = eng.p.types[t["a"][0]]
        if t["k"] == "adt" and len(t.get("a", [])) > i:
            return t["a"][i]
    return None


def with_ty(v, ty):
    if v[0] == "m" and v[2] is None and ty is not None:
        return ("m", v[1], ty, v[3])
    return v


def split2(eng, st, v, adt):
    """Fork a two-variant enum value: [(vi, payload, state)]"""
    labels = {RES: ("Ok", "Err"), OPT: ("None", "Some"), CF: ("Continue", "Break")}[adt]
    if v[0] == "e":
        return [(v[2], v[3][0] if v[3] else UNIT, st)]
    if v[0] == "m":
        a = st.asm.get(v[1])
        for kk, vv in v[3]:
            if kk[0] == "v":
                return [(kk[1], eng.payload(v, kk[1], 0, None, labels[kk[1]]), st)]
        out = []
        for vi in (0, 1):
            if a is not None and a[0] == "ev" and a[1] != vi:
                continue
            n = st.copy()
            if "~" not in v[1]:
                n.asm[v[1]] = ("ev", vi, vi)
            n.note("%s is %s" % (v[1], labels[vi]))
            ty = None
            if adt == OPT:
                ty = garg(eng, v, 0)
            elif adt == RES:
                ty = garg(eng, v, vi)
            elif adt == CF:
                ty = garg(eng, v, 1 - vi)
            out.append((vi, eng.payload(v, vi, 0, ty, labels[vi]), n))
        return out
    return [(0, TOP, st.copy()), (1, TOP, st.copy())]


def arg_adt(eng, call, i):
    ty = call.argtys[i]
    if ty is None:
        return None
    t = eng.p.types[ty]
    while t["k"] in ("ref", "ptr"):
        t = eng.p.types[t["a"][0]]
    return t.get("d") if t["k"] == "adt" else None


def m_branch(eng, st, call):
    adt = arg_adt(eng, call, 0)
    v = call.args[0]
    if v[0] == "m" and v[2] is None:
        v = ("m", v[1], call.argtys[0], v[3])
    out = []
    if adt == RES:
        for vi, p, n in split2(eng, st, v, RES):
            if vi == 0:
                out.append((("e", CF, 0, (p,)), n))
            else:
                out.append((("e", CF, 1, (("e", RES, 1, (p,)),)), n))
        return out
    if adt == OPT:
        for vi, p, n in split2(eng, st, v, OPT):
            if vi == 1:
                out.append((("e", CF, 0, (p,)), n))
            else:
                out.append((("e", CF, 1, (("e", OPT, 0, ()),)), n))
        return out
    return None


def m_from_residual(eng, st, call):
    v = call.args[0]
    dadt = None
    ga = call.callee.ga
    if ga:
        t = eng.p.types[ga[0]]
        dadt = t.get("d")
    if dadt == OPT:
        return [(("e", OPT, 0, ()), st)]
    if v[0] == "e" and v[1] == RES:
        return [(("e", RES, 1, (v[3][0],)), st)]
    return [(("e", RES, 1, (TOP,)), st)]


def m_ident(eng, st, call):
    return [(call.args[0], st)]


def m_deref(eng, st, call):
    """Deref of std smart pointers / containers is transparent; local impls are analysed."""
    c = call.callee
    if c.res in eng.p.bodies:
        return None
    v = call.args[0]
    adt = arg_adt(eng, call, 0)
    if adt in ("alloc::boxed::Box",):
        return [(eng.pointee(st, v), st)]
    if adt in ("alloc::vec::Vec", "alloc::string::String", "alloc::borrow::Cow") or adt is None:
        return [(v, st)]
    if adt and adt.startswith("cdx::") or adt and adt.startswith("bin::"):
        return None
    # other smart pointers (guards, lazies, Rc): pointer to a named inner object
    loc = eng.deref(v)
    if loc is None:
        return [(TOP, st)]
    return [(("r", loc[0], loc[1] + ((("f", "deref"), None, ".deref"),)), st)]


def m_index(eng, st, call):
    c = call.callee
    if c.res in eng.p.bodies:
        return None
    v, i = call.args[0], call.args[1]
    it = call.argtys[1]
    loc = eng.deref(v)
    if loc is None:
        return [(TOP, st)]
    dty = eng.placetype(call.body, call.term["d"])
    ety = None
    if dty is not None and eng.p.types[dty]["k"] == "ref":
        ety = eng.p.types[dty]["a"][0]
    if i[0] == "c":
        key = i[1]
    else:
        n = eng.nm(i)
        if n is None or len(n) > 120:
            return [(eng.fresh(st, st.frames[-1], "ix", dty), st)]
        key = n
    base = eng.read(st, loc[0], loc[1])
    if base[0] == "t" and base[1] is None and i[0] == "t" and i[1] and i[1].startswith("core::ops::range::Range"):
        r = sub_range(i, len(base[2]))
        if r is not None:
            return [(view(eng, st, loc, base, *r), st)]
    if base[0] in ("s", "b") and i[0] != "c":
        return [(eng.fresh(st, st.frames[-1], "ix", dty), st)]
    return [(eng.mkref(loc[0], loc[1] + ((("ix", key), ety, "[%s]" % key),)), st)]


def sub_range(i, n):
    k = i[1].rsplit("::", 1)[-1]
    c = [x[1] if x[0] == "c" else None for x in i[2]]
    if None in c:
        return None
    if k == "Range":
        r = (c[0], c[1])
    elif k == "RangeFrom":
        r = (c[0], n)
    elif k == "RangeTo":
        r = (0, c[0])
    elif k == "RangeFull":
        r = (0, n)
    elif k == "RangeInclusive":
        r = (c[0], c[1] + 1)
    elif k == "RangeToInclusive":
        r = (0, c[0] + 1)
    else:
        return None
    return r if 0 <= r[0] <= r[1] <= n else None


def view(eng, st, loc, base, a, b):
    """Pointer to a sub-slice of a list of known length."""
    if loc[0][0] == "K":
        return ("kp", ("t", None, tuple(base[2][a:b])))
    return eng.mkref(loc[0], loc[1] + ((("sub", a, b), None, "[%d..%d]" % (a, b)),))


def m_split_first(last):
    def f(eng, st, call):
        loc = eng.deref(call.args[0])
        if loc is None:
            return None
        base = eng.read(st, loc[0], loc[1])
        if base[0] != "t" or base[1] is not None:
            return None
        n = len(base[2])
        if n == 0:
            return [(("e", OPT, 0, ()), st)]
        i = n - 1 if last else 0
        el = eng.mkref(loc[0], loc[1] + ((("ix", i), None, "[%d]" % i),))
        rest = view(eng, st, loc, base, 0, n - 1) if last else view(eng, st, loc, base, 1, n)
        return [(("e", OPT, 1, (("t", None, (el, rest)),)), st)]
    return f


def m_get_el(which):
    """first / last / get on lists of known length; otherwise opaque Option of a named element."""
    def f(eng, st, call):
        loc = eng.deref(call.args[0])
        if loc is None:
            return None
        base = eng.read(st, loc[0], loc[1])
        if base[0] != "t" or base[1] is not None:
            return None
        n = len(base[2])
        if which == "get":
            if call.args[1][0] != "c":
                return None
            i = call.args[1][1]
        else:
            i = 0 if which == "first" else n - 1
        if not 0 <= i < n:
            return [(("e", OPT, 0, ()), st)]
        return [(("e", OPT, 1, (eng.mkref(loc[0], loc[1] + ((("ix", i), None, "[%d]" % i),)),)), st)]
    return f


def low(eng, x):
    if x[0] == "c":
        return ("c", x[1] + 32 if 65 <= x[1] <= 90 else x[1])
    n = eng.nm(x)
    if n is None or "~" in n or n.startswith("<") or len(n) > 160:
        return None
    if n.startswith("to_ascii_lowercase("):
        return x
    return ("m", "to_ascii_lowercase(%s)" % n, x[2] if x[0] == "m" else None, ())


def m_make_lower(eng, st, call):
    loc = eng.deref(call.args[0])
    if loc is None or loc[0][0] == "K":
        return None
    v = eng.read(st, loc[0], loc[1])
    if v[0] == "t" and v[1] is None:
        xs = [low(eng, x) for x in v[2]]
        new = ("t", None, tuple(xs)) if None not in xs else None
    else:
        new = low(eng, v)
    if new is None:
        return None
    eng.write(st, loc[0], loc[1], new)
    return [(UNIT, st)]


def m_to_lower(eng, st, call):
    x = eng.pointee(st, call.args[0]) if call.args[0][0] in ("r", "kp") else call.args[0]
    if x[0] == "t" and x[1] is None:
        xs = [low(eng, y) for y in x[2]]
        return [(("t", None, tuple(xs)), st)] if None not in xs else None
    r = low(eng, x)
    return None if r is None else [(r, st)]


def m_copy_from_slice(eng, st, call):
    loc = eng.deref(call.args[0])
    if loc is None or loc[0][0] == "K":
        return None
    dst = eng.read(st, loc[0], loc[1])
    sl = eng.deref(call.args[1])
    src = eng.read(st, sl[0], sl[1]) if sl is not None else TOP
    if dst[0] == "t" and dst[1] is None and src[0] == "t" and src[1] is None and len(dst[2]) == len(src[2]):
        eng.write(st, loc[0], loc[1], src)
        return [(UNIT, st)]
    return None


def m_contains(eng, st, call):
    """contains on a list of known length: some element equals the value."""
    loc = eng.deref(call.args[0])
    if loc is None:
        return None
    base = eng.read(st, loc[0], loc[1])
    if base[0] != "t" or base[1] is not None:
        return None
    x = eng.pointee(st, call.args[1]) if call.args[1][0] in ("r", "kp") else call.args[1]
    if not base[2]:
        return [(FALSE, st)]
    d = deep(eng, st, call.args[1])
    if d[0] == "s":
        es = [deep(eng, st, e) for e in base[2]]
        return [(TRUE if d in es else FALSE, st)] if all(e[0] == "s" for e in es) else None
    if x[0] not in ("c", "m") or len(base[2]) > 12:
        return None
    out = []
    for e in base[2]:
        p = eng.pred(st, "Eq", e, x)
        nxt = None
        for b, n in eng.fork_bool(st, p):
            if b:
                out.append((TRUE, n))
            else:
                nxt = n
        if nxt is None:
            return out
        st = nxt
    out.append((FALSE, st))
    return out


def m_str_split(eng, st, call):
    a, b = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
    if b[0] == "c":
        b = ("s", chr(b[1]))
    if a[0] == "s" and b[0] == "s" and b[1]:
        return [(("it", "list", tuple(("s", x) for x in a[1].split(b[1])), 0), st)]
    return None


def m_split_once(eng, st, call):
    a, b = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
    if b[0] == "c":
        b = ("s", chr(b[1]))
    if a[0] == "s" and b[0] == "s":
        if b[1] in a[1]:
            x, y = a[1].split(b[1], 1)
            return [(("e", OPT, 1, (("t", None, (("s", x), ("s", y))),)), st)]
        return [(("e", OPT, 0, ()), st)]
    return None


def m_len(eng, st, call):
    return [(eng.lenof(st, call.args[0]), st)]


def m_is_empty(eng, st, call):
    c = call.callee
    if c.res in eng.p.bodies:
        return None
    l = eng.lenof(st, call.args[0])
    if l[0] == "x":
        return [(TOP, st)]
    return [(eng.binop(st, "Eq", l, ("c", 0), None, None), st)]


def m_is_variant(adt, want):
    def f(eng, st, call):
        v = eng.pointee(st, call.args[0])
        if v[0] == "m" and v[2] is None:
            ty = call.argtys[0]
            if ty is not None and eng.p.types[ty].get("a"):
                v = ("m", v[1], eng.p.types[ty]["a"][0], v[3])
        return [(TRUE if vi == want else FALSE, n) for vi, p, n in split2(eng, st, v, adt)]
    return f


def m_unwrap(adt, want):
    def f(eng, st, call):
        v = with_ty(call.args[0], call.argtys[0])
        return [(p, n) for vi, p, n in split2(eng, st, v, adt) if vi == want]
    return f


def m_as_ref(eng, st, call):
    """Option::as_ref / as_mut / as_deref: &Option<T> -> Option<&T>"""
    loc = eng.deref(call.args[0])
    if loc is None:
        return None
    v = eng.read(st, loc[0], loc[1])
    ty = call.argtys[0]
    if v[0] == "m" and v[2] is None and ty is not None:
        v = ("m", v[1], eng.p.types[ty]["a"][0], v[3])
    adt = arg_adt(eng, call, 0)
    if adt not in (OPT, RES):
        return None
    out = []
    want = 1 if adt == OPT else 0
    lab = "@Some" if adt == OPT else "@Ok"
    for vi, p, n in split2(eng, st, v, adt):
        if vi == want:
            pt = None
            t = eng.p.types[ty]["a"][0] if ty is not None and eng.p.types[ty].get("a") else None
            if t is not None and eng.p.types[t].get("a"):
                pt = eng.p.types[t]["a"][0]
            r = ("r", loc[0], loc[1] + ((("v", vi), None, lab), (("f", 0), pt, ".0")))
            out.append((("e", adt, vi, (r,)), n))
        elif adt == OPT:
            out.append((("e", OPT, 0, ()), n))
        else:
            out.append((("e", RES, 1, (p,)), n))
    return out


def m_take(eng, st, call):
    loc = eng.deref(call.args[0])
    if loc is None or loc[0][0] == "K":
        return None
    v = eng.read(st, loc[0], loc[1])
    eng.write(st, loc[0], loc[1], ("e", OPT, 0, ()))
    return [(v, st)]


def m_ok(eng, st, call):
    v = with_ty(call.args[0], call.argtys[0])
    out = []
    for vi, p, n in split2(eng, st, v, RES):
        out.append((("e", OPT, 1, (p,)) if vi == 0 else ("e", OPT, 0, ()), n))
    return out


def m_map_err(eng, st, call):
    v = with_ty(call.args[0], call.argtys[0])
    out = []
    for vi, p, n in split2(eng, st, v, RES):
        if vi == 0:
            out.append((("e", RES, 0, (p,)), n))
        else:
            out.append((("e", RES, 1, (eng.fresh(n, n.frames[-1], "me", None),)), n))
    return out


def m_ok_or(eng, st, call):
    v = with_ty(call.args[0], call.argtys[0])
    out = []
    for vi, p, n in split2(eng, st, v, OPT):
        if vi == 1:
            out.append((("e", RES, 0, (p,)), n))
        else:
            out.append((("e", RES, 1, (TOP,)), n))
    return out


def m_unwrap_or(adt, want):
    def f(eng, st, call):
        v = with_ty(call.args[0], call.argtys[0])
        out = []
        for vi, p, n in split2(eng, st, v, adt):
            out.append((p if vi == want else call.args[1], n))
        return out
    return f


def m_reverse(eng, st, call):
    v = call.args[0]
    if v[0] == "e":
        return [({0: GREATER, 1: EQUAL, 2: LESS}[v[2]], st)]
    r = eng.fork_enum(st, with_ty(v, eng.tyof_adt(ORD)))
    if r is None:
        return None
    return [({0: GREATER, 1: EQUAL, 2: LESS}[vi], n) for vi, n in r]


def m_ord_pred(acc):
    def f(eng, st, call):
        v = call.args[0]
        if v[0] in ("r", "kp"):
            v = eng.pointee(st, v)
        r = eng.fork_enum(st, with_ty(v, eng.tyof_adt(ORD)))
        if r is None:
            return None
        return [(TRUE if vi in acc else FALSE, n) for vi, n in r]
    return f


def m_then(eng, st, call):
    r = eng.fork_enum(st, with_ty(call.args[0], eng.tyof_adt(ORD)))
    if r is None:
        return None
    return [((call.args[1] if vi == 1 else ("e", ORD, vi, ())), n) for vi, n in r]


def m_then_with(eng, st, call):
    r = eng.fork_enum(st, with_ty(call.args[0], eng.tyof_adt(ORD)))
    if r is None:
        return None
    out = []
    for vi, n in r:
        if vi != 1:
            out += eng.finish([(("e", ORD, vi, ()), n)], call, call.term)
        else:
            q = eng.call_value(n, call, call.args[1], [])
            if q is None:
                q = eng.finish(eng.opaque_call(n, call), call, call.term)
            out += q
    eng._pushed = out
    return "pushed"


def deep(eng, st, v, d=0):
    """Follow pointers to the compared value."""
    while v[0] in ("r", "kp") and d < 4:
        v = eng.pointee(st, v)
        d += 1
    if v[0] == "m" and d < 4 and v[2] is not None and eng.p.types[v[2]]["k"] == "ref":
        return deep(eng, st, eng.pointee(st, v), d + 1)
    return v


def m_eq(neg):
    def f(eng, st, call):
        c = call.callee
        if c.res in eng.p.bodies and not eng.p.bodies[c.res].exp:
            return None
        a, b = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
        return eq_values(eng, st, a, b, neg)
    return f


def eq_values(eng, st, a, b, neg):
    r = None
    if a[0] == "x" or b[0] == "x":
        return [(TOP, st)]
    if a[0] == "e" and b[0] == "e":
        if a[2] != b[2]:
            r = 0
        elif not a[3] and not b[3]:
            r = 1
        elif len(a[3]) == len(b[3]) == 1:
            return eq_values(eng, st, deep(eng, st, a[3][0]), deep(eng, st, b[3][0]), neg)
    elif a[0] == "m" and b[0] == "e" or b[0] == "m" and a[0] == "e":
        m, e = (a, b) if a[0] == "m" else (b, a)
        ad = eng.p.adts.get(e[1])
        if not e[3] and ad:
            q = eng.fork_enum(st, ("m", m[1], m[2] if eng.enumadt(m[2]) else eng.tyof_adt(e[1]), m[3]))
            if q:
                # keep the split coarse: equal / not equal
                return [(("c", int((vi == e[2]) != neg)), n) for vi, n in q]
    elif a[0] in ("s", "b", "c") and b[0] == a[0]:
        r = int(a[1] == b[1])
    elif a[0] == "t" and b[0] == "t" and a == b and not has_top(a):
        r = 1
    if r is not None:
        return [(("c", int(bool(r) != neg)), st)]
    v = eng.pred(st, "Ne" if neg else "Eq", a, b)
    return [(v, st)]


def has_top(v):
    if v == TOP:
        return True
    return isinstance(v, tuple) and any(has_top(x) for x in v if isinstance(x, tuple))


def named2(kind, ty=None, sym=False):
    def f(eng, st, call):
        c = call.callee
        if c.res in eng.p.bodies:
            return None
        a, b = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
        if kind == "cmp" and a[0] == "c" and b[0] == "c":
            r = LESS if a[1] < b[1] else (EQUAL if a[1] == b[1] else GREATER)
            return [(r, st)]
        if kind == "eqic" and a[0] == "s" and b[0] == "s":
            return [(("c", int(a[1].lower() == b[1].lower())), st)]
        na, nb = eng.nm(a), eng.nm(b)
        dty = eng.placetype(call.body, call.term["d"])
        if na is None or nb is None or len(na) + len(nb) > 200:
            return [(eng.fresh(st, st.frames[-1], kind, dty), st)]
        if sym and nb < na:
            na, nb = nb, na
        return [(eng.norm(st, ("m", "%s(%s,%s)" % (kind, na, nb), dty, ())), st)]
    return f


def m_replace(eng, st, call):
    loc = eng.deref(call.args[0])
    if loc is None or loc[0][0] == "K":
        return None
    v = eng.read(st, loc[0], loc[1])
    eng.write(st, loc[0], loc[1], call.args[1])
    return [(v, st)]


def m_mem_take(eng, st, call):
    loc = eng.deref(call.args[0])
    if loc is None or loc[0][0] == "K":
        return None
    v = eng.read(st, loc[0], loc[1])
    eng.write(st, loc[0], loc[1], eng.fresh(st, st.frames[-1], "tk", None))
    return [(v, st)]


def m_swap(eng, st, call):
    a, b = eng.deref(call.args[0]), eng.deref(call.args[1])
    if a is None or b is None:
        return None
    x, y = eng.read(st, *a), eng.read(st, *b)
    eng.write(st, a[0], a[1], y)
    eng.write(st, b[0], b[1], x)
    return [(UNIT, st)]


def m_clone(eng, st, call):
    v = eng.pointee(st, call.args[0])
    return [(v, st)]


def m_box_new(eng, st, call):
    fr = st.frames[-1]
    b = eng.fresh(st, fr, "box", None)
    root = ("O", b[1], call.argtys[0])
    st.store[root] = call.args[0]
    return [(("r", root, ()), st)]


def empty_fresh(eng, st, call):
    dty = eng.placetype(call.body, call.term["d"])
    if eng.lists and dty is not None and eng.p.types[dty].get("d") == "alloc::vec::Vec":
        return [(("t", None, ()), st)]
    v = eng.fresh(st, st.frames[-1], "new", dty)
    set_empty(eng, st, v, True)
    return [(v, st)]


def set_empty(eng, st, v, yes):
    n = eng.nm(v)
    if n is None:
        return
    p = eng.pred(st, "Eq", ("m", "len(%s)" % n, eng.usize(), ()), ("c", 0))
    if p[0] == "m" and "~" not in p[1]:
        st.asm[p[1]] = ("c", 1 if yes else 0)


def aslist(eng, st, v):
    """Elements of a list whose length is known, or None."""
    if v[0] == "t" and v[1] is None:
        return v[2]
    if v[0] == "b":
        return tuple(("c", x) for x in (v[1].encode("latin-1") if isinstance(v[1], str) else v[1]))
    if v[0] == "s":
        return tuple(("c", x) for x in v[1].encode())
    return None


def m_list_op(op):
    """Operations on a list of known length (only when the engine follows lists)."""
    def f(eng, st, call):
        if not eng.lists:
            return None
        loc = eng.deref(call.args[0])
        if loc is None or loc[0][0] == "K":
            return None
        old = aslist(eng, st, eng.read(st, loc[0], loc[1]))
        if old is None:
            return None
        ret = UNIT
        if op == "extend":
            new = aslist(eng, st, eng.pointee(st, call.args[1]))
            if new is None or len(old) + len(new) > 96:
                return None
            new = old + new
        elif op == "truncate":
            if call.args[1][0] != "c":
                return None
            new = old[:call.args[1][1]]
        elif op == "pop":
            new = old[:-1]
            ret = ("e", OPT, 1, (old[-1],)) if old else ("e", OPT, 0, ())
        elif op in ("insert", "remove"):
            i = call.args[1]
            if i[0] != "c" or not 0 <= i[1] < len(old) + (op == "insert") or len(old) > 95:
                return None
            if op == "insert":
                new = old[:i[1]] + (call.args[2],) + old[i[1]:]
            else:
                new = old[:i[1]] + old[i[1] + 1:]
                ret = old[i[1]]
        elif op == "append":
            l2 = eng.deref(call.args[1])
            more = aslist(eng, st, eng.read(st, l2[0], l2[1])) if l2 is not None else None
            if more is None or l2[0][0] == "K" or len(old) + len(more) > 96:
                return None
            eng.write(st, l2[0], l2[1], ("t", None, ()))
            new = old + more
        else:
            return None
        eng.write(st, loc[0], loc[1], ("t", None, new))
        return [(ret, st)]
    return f


def m_from_elem(eng, st, call):
    n = call.args[1]
    if n[0] != "c" or not 0 <= n[1] <= 96:
        return None
    return [(("t", None, (call.args[0],) * n[1]), st)]


def m_push(eng, st, call):
    loc = eng.deref(call.args[0])
    if loc is None or loc[0][0] == "K":
        return None
    if eng.lists:
        old = aslist(eng, st, eng.read(st, loc[0], loc[1]))
        if old is not None and len(old) < 96:
            eng.write(st, loc[0], loc[1], ("t", None, old + (call.args[1],)))
            return [(UNIT, st)]
    ty = call.argtys[0]
    v = eng.fresh(st, st.frames[-1], "pu", eng.p.types[ty]["a"][0] if ty is not None else None)
    eng.write(st, loc[0], loc[1], v)
    set_empty(eng, st, v, False)
    return [(UNIT, st)]


def m_clear(eng, st, call):
    loc = eng.deref(call.args[0])
    if loc is None or loc[0][0] == "K":
        return None
    if eng.lists and aslist(eng, st, eng.read(st, loc[0], loc[1])) is not None:
        eng.write(st, loc[0], loc[1], ("t", None, ()))
        return [(UNIT, st)]
    ty = call.argtys[0]
    v = eng.fresh(st, st.frames[-1], "cl", eng.p.types[ty]["a"][0] if ty is not None else None)
    eng.write(st, loc[0], loc[1], v)
    set_empty(eng, st, v, True)
    return [(UNIT, st)]


# ------------------------------------------------------------------ iterators
def coll_name(eng, st, root, proj):
    v = eng.read(st, root, proj)
    if v[0] == "m" and v[2] is not None and eng.p.types[v[2]]["k"] == "ref":
        loc = eng.deref(v)
        return coll_name(eng, st, *loc)
    return v


def mk_iter(eng, st, v, ty):
    """Iterator value over v (by reference or by value)."""
    if v[0] == "it":
        return v
    tk = eng.p.types[ty] if ty is not None else None
    if v[0] == "kp" and v[1][0] == "t":
        return ("it", "list", tuple(("kp", x) if x[0] not in ("s", "b") else ("kp", x) for x in v[1][2]), 0)
    if tk is not None and tk["k"] in ("ref", "ptr") or v[0] in ("r", "kp"):
        loc = eng.deref(v)
        if loc is None:
            return ("it", "opq", "?", 0)
        w = eng.read(st, loc[0], loc[1])
        if w[0] == "it":
            return w
        n = eng.nm(w)
        if w[0] == "t" and w[1] is None:
            return ("it", "list", tuple(("r", loc[0], loc[1] + ((("ix", i), None, "[%d]" % i),)) for i in range(len(w[2]))), 0)
        ety = None
        t = eng.p.types[tk["a"][0]] if tk is not None and tk.get("a") else None
        while t is not None and t["k"] in ("ref", "ptr"):
            t = eng.p.types[t["a"][0]]
        if t is not None and t.get("a") and (t["k"] in ("slice", "array") or t.get("d") == "alloc::vec::Vec"):
            ety = t["a"][0]
        return ("it", "ref", (n or "?", ety), 0)
    if v[0] == "t" and v[1] is None:
        return ("it", "list", v[2], 0)
    if v[0] == "m":
        t = tk
        ety = None
        if t is not None and t["k"] == "adt" and t.get("d") == "alloc::vec::Vec":
            ety = t["a"][0]
            return ("it", "own", (eng.nm(v) or "?", ety), 0)
        if t is not None and t["k"] == "adt" and t["d"].startswith("core::ops::range::Range"):
            return ("it", "range", eng.nm(v) or "?", 0)
        if t is not None and t["k"] == "array":
            return ("it", "own", (eng.nm(v) or "?", t["a"][0]), 0)
        return ("it", "opq", eng.nm(v) or "?", 0)
    if v[0] == "t" and v[1] == "core::ops::range::Range" and len(v[2]) == 2 and all(x[0] == "c" for x in v[2]) and v[2][1][1] - v[2][0][1] < 16:
        return ("it", "list", tuple(("c", i) for i in range(v[2][0][1], v[2][1][1])), 0)
    if v[0] == "t" and v[1] and v[1].startswith("core::ops::range::Range"):
        return ("it", "range", eng.nm(v) or "?", 0)
    return ("it", "opq", "?", 0)


def m_into_iter(eng, st, call):
    c = call.callee
    if c.res in eng.p.bodies:
        return None
    return [(mk_iter(eng, st, call.args[0], call.argtys[0]), st)]


def m_iter(eng, st, call):
    c = call.callee
    if c.res in eng.p.bodies:
        return None
    return [(mk_iter(eng, st, call.args[0], call.argtys[0]), st)]


PURE_MAP = ("::to_ascii_lowercase", "::to_ascii_uppercase", "::to_lowercase", "::to_uppercase")


def m_adapt(kind):
    def f(eng, st, call):
        it = call.args[0]
        if it[0] != "it":
            it = mk_iter(eng, st, it, call.argtys[0])
        rest = tuple(call.args[1:])
        if kind in ("zip", "chain"):
            rest = (mk_iter(eng, st, call.args[1], call.argtys[1]),)
        if it[1] == "list":
            xs = it[2][it[3]:]
            n = rest[0][1] if rest and rest[0][0] == "c" else None
            if kind == "skip" and n is not None:
                return [(("it", "list", xs[n:], 0), st)]
            if kind == "take" and n is not None:
                return [(("it", "list", xs[:n], 0), st)]
            if kind == "rev":
                return [(("it", "list", xs[::-1], 0), st)]
            if kind in ("copied", "cloned") and all(x[0] in ("r", "kp") for x in xs):
                return [(("it", "list", tuple(eng.pointee(st, x) for x in xs), 0), st)]
            if kind == "map" and rest[0][0] == "fn" and eng.closure_body(st, rest[0]) is None and rest[0][1].endswith(PURE_MAP):
                ys = [eng.nm(eng.pointee(st, x) if x[0] in ("r", "kp") else x) for x in xs]
                if None not in ys:
                    f = rest[0][1].rsplit("::", 1)[-1]
                    return [(("it", "list", tuple(("m", "%s(%s)" % (f, y), None, ()) for y in ys), 0), st)]
            if kind == "enumerate":
                return [(("it", "list", tuple(("t", None, (("c", i), x)) for i, x in enumerate(xs)), 0), st)]
            if kind in ("zip", "chain") and rest[0][1] == "list":
                ys = rest[0][2][rest[0][3]:]
                if kind == "chain":
                    return [(("it", "list", xs + ys, 0), st)]
                return [(("it", "list", tuple(("t", None, xy) for xy in zip(xs, ys)), 0), st)]
        return [(("it", kind, (it,) + rest, 0), st)]
    return f


def src_of(it):
    """Innermost source of an adaptor chain."""
    while it[0] == "it" and it[1] in ("enumerate", "rev", "map", "filter", "copied", "zip", "peekable", "take_while",
                                      "skip", "take", "filter_map", "chain"):
        it = it[2][0]
    return it


def iter_next(eng, st, it, frame, dty=None):
    """[(elem|None, new iterator, state)]; closures of lazy adaptors are not run here."""
    kind = it[1]
    if kind == "list":
        if it[3] >= len(it[2]):
            return [(None, it, st)]
        return [(it[2][it[3]], ("it", "list", it[2], it[3] + 1), st)]
    if kind in ("ref", "own"):
        name, ety = it[2]
        known = None
        p = None
        if "~" not in name and name != "?":
            p = eng.pred(st, "Eq", ("m", "len(%s)" % name, eng.usize(), ()), ("c", 0))
            if p[0] == "c":
                known = p[1]
        out = []
        if not (it[3] == 0 and known == 0):
            n = st.copy()
            if it[3] == 0 and p is not None and p[0] == "m":
                n.asm[p[1]] = ("c", 1)
            n.note("end of %s" % name)
            out.append((None, it, n))
        if not (known == 1):
            n = st.copy()
            if p is not None and p[0] == "m":
                n.asm[p[1]] = ("c", 0)
            e = eng.fresh(n, frame, "el", ety)
            nit = ("it", kind, it[2], 1)
            e = ("m", e[1].replace(">", "|%s>" % tokfree(name)), ety, ())
            n.note("next of %s" % name)
            if kind == "ref":
                out.append((("r", ("O", e[1], ety), ()), nit, n))
            else:
                out.append((e, nit, n))
        return out
    if kind == "enumerate":
        out = []
        for e, i2, n in iter_next(eng, st, it[2][0], frame):
            if e is None:
                out.append((None, ("it", kind, (i2,), 1), n))
            else:
                idx = ("c", 0) if it[3] == 0 else ("iv", 1, None)
                out.append((("t", None, (idx, e)), ("it", kind, (i2,), 1), n))
        return out
    if kind in ("rev", "copied", "peekable", "skip", "take", "filter", "take_while", "step_by"):
        out = []
        for e, i2, n in iter_next(eng, st, it[2][0], frame):
            nit = ("it", kind, (i2,) + it[2][1:], 1)
            if e is not None and kind == "copied":
                e = eng.pointee(n, e) if e[0] in ("r", "kp") else e
            out.append((e, nit, n))
            if e is not None and kind in ("skip", "take", "filter", "take_while"):
                out.append((None, nit, n.copy()))
        return out
    if kind == "zip":
        out = []
        for e, i2, n in iter_next(eng, st, it[2][0], frame):
            if e is None:
                out.append((None, it, n))
                continue
            e2 = eng.fresh(n, frame, "zp", None)
            out.append((None, it, n.copy()))
            out.append((("t", None, (e, e2)), ("it", kind, (i2, it[2][1]), 1), n))
        return out
    n1, n2 = st.copy(), st.copy()
    e = eng.fresh(n2, frame, "nx", dty)
    return [(None, it, n1), (e, it, n2)]


def tokfree(s):
    return s.replace("<", "(").replace(">", ")").replace("~", "-")[:60]


def m_next(eng, st, call):
    c = call.callee
    if c.res in eng.p.bodies:
        return None
    loc = eng.deref(call.args[0])
    if loc is None:
        return None
    it = eng.read(st, loc[0], loc[1])
    dty = eng.placetype(call.body, call.term["d"])
    ety = eng.p.types[dty]["a"][0] if dty is not None and eng.p.types[dty].get("a") else None
    if it[0] != "it":
        return None
    if it[1] in ("filter", "filter_map") and src_of(it)[1] == "list":
        q = filter_next(eng, st, call, it, loc)
        if q is not None:
            eng._pushed = q
            return "pushed"
    if it[1] == "map" or it[1] == "filter_map":
        out = []
        for e, i2, n in iter_next(eng, st, it[2][0], st.frames[-1]):
            eng.write(n, loc[0], loc[1], ("it", it[1], (i2,) + it[2][1:], 1))
            if e is None:
                out += eng.finish([(("e", OPT, 0, ()), n)], call, call.term)
            else:
                q = enter_post(eng, n, call, it[2][1], [e], ("mapnext", it[1]))
                if q is None:
                    v = eng.fresh(n, n.frames[-1], "mp", ety)
                    q = eng.finish([(("e", OPT, 1, (v,)), n)], call, call.term)
                out += q
        eng._pushed = out
        return "pushed"
    out = []
    for e, i2, n in iter_next(eng, st, it, st.frames[-1], ety):
        eng.write(n, loc[0], loc[1], i2)
        if e is None:
            out.append((("e", OPT, 0, ()), n))
        else:
            out.append((("e", OPT, 1, (with_ty(e, ety),)), n))
    return out


def filter_next(eng, st, call, it, loc):
    """next() of a filtered list: elements are skipped until the closure takes one; None if the closure is not known."""
    out = []
    for e, i2, n in iter_next(eng, st, it[2][0], st.frames[-1]):
        i3 = ("it", it[1], (i2,) + it[2][1:], 1)
        eng.write(n, loc[0], loc[1], i3)
        if e is None:
            out += finish_post(eng, n, ("e", OPT, 0, ()), call.term["t"])
            continue
        arg = boxed(eng, n, n.frames[-1], e) if it[1] == "filter" else e
        q = enter_post(eng, n, call, it[2][1], [arg], ("filternext", it[1], i3, loc, e))
        if q is None:
            return None
        out += q
    return out


# ------------------------------------------------------------------ higher-order calls
def enter_post(eng, st, call, f, args, cont):
    """Run callable f; its result is passed to resume_post with cont (call info added)."""
    cb = eng.closure_body(st, f)
    if cb is None or len(st.frames) > eng.max_depth:
        return None
    path = cb[0]
    if any(x.body.path == path for x in st.frames):
        return None
    b = eng.p.bodies[path]
    st.post = st.post + (cont + (call.term["t"],),)
    return [eng.enter(st, b, eng.closure_args(st, f, path, args), None, "post", call)]


def finish_post(eng, st, v, ret):
    fr = st.frames[-1]
    t = fr.body.bbs[fr.bb]["t"]
    loc = eng.place(st, t["d"], len(st.frames) - 1)
    if loc is not None:
        eng.write(st, loc[0], loc[1], v)
    return [eng.goto(st, ret)]


class _PCall:
    def __init__(self, term):
        self.term = term
        self.dest = None


def resume_post(eng, st, cont, v):
    kind = cont[0]
    ret = cont[-1]
    if kind == "mapnext":
        if cont[1] == "filter_map":
            return finish_post(eng, st, v, ret)
        return finish_post(eng, st, ("e", OPT, 1, (v,)), ret)
    if kind == "filternext":
        _, ak, it, loc, elem = cont[:5]
        fr = st.frames[-1]
        out = []
        if ak == "filter":
            hits = [(b, ("e", OPT, 1, (elem,)), n) for b, n in eng.fork_bool(st, v)]
        else:
            hits = [(vi, ("e", OPT, 1, (p,)), n) for vi, p, n in split2(eng, st, v, OPT)]
        for hit, r, n in hits:
            if hit:
                out += finish_post(eng, n, r, ret)
            else:
                q = filter_next(eng, n, _PCall(fr.body.bbs[fr.bb]["t"]), it, loc)
                out += q or []
        return out
    if kind == "wrap":
        return finish_post(eng, st, ("e", cont[1], cont[2], (v,)), ret)
    if kind == "plain":
        return finish_post(eng, st, v, ret)
    if kind == "lazy":
        ak, kind, it, f, elem, acc = cont[1:7]
        if ak == "map":
            return hof_body(eng, st, kind, it, f, v, ret, acc)
        out = []
        if ak == "filter":
            for b, n in eng.fork_bool(st, v):
                out += hof_body(eng, n, kind, it, f, elem, ret, acc) if b else hof_loop(eng, n, kind, it, f, ret, acc)
            return out
        for vi, p, n in split2(eng, st, v, OPT):
            out += hof_body(eng, n, kind, it, f, p, ret, acc) if vi else hof_loop(eng, n, kind, it, f, ret, acc)
        return out
    if kind == "fold":
        return hof_loop(eng, st, "fold", cont[1], cont[2], ret, v)
    if kind == "find_map":
        out = []
        for vi, p, n in split2(eng, st, v, OPT):
            if vi:
                out += finish_post(eng, n, ("e", OPT, 1, (p,)), ret)
            else:
                out += hof_loop(eng, n, kind, cont[1], cont[2], ret)
        return out
    if kind in ("any", "all", "for_each", "try_for_each", "find", "position"):
        it, f, elem = cont[1], cont[2], cont[3]
        out = []
        if kind in ("any", "all", "find", "position"):
            for b, n in eng.fork_bool(st, v):
                stop = b == (0 if kind == "all" else 1)
                if stop:
                    if kind == "any":
                        r = TRUE
                    elif kind == "all":
                        r = FALSE
                    elif kind == "find":
                        r = ("e", OPT, 1, (elem,))
                    else:
                        r = ("e", OPT, 1, (TOP,))
                    out += finish_post(eng, n, r, ret)
                else:
                    out += hof_loop(eng, n, kind, it, f, ret)
            return out
        if kind == "try_for_each":
            for vi, p, n in split2(eng, st, v, RES):
                if vi == 1:
                    out += finish_post(eng, n, ("e", RES, 1, (p,)), ret)
                else:
                    out += hof_loop(eng, n, kind, it, f, ret)
            return out
        return hof_loop(eng, st, kind, it, f, ret)
    if kind == "dedup":
        kept, x, rest, f, loc = cont[1:6]
        out = []
        for b, n in eng.fork_bool(st, v):
            out += dedup_step(eng, n, kept if b else kept + (x,), rest, f, loc, ret)
        return out
    if kind == "isort":
        done, j, x, rest, f, loc = cont[1:7]
        if v[0] == "e" and v[1] == ORD:
            opts = [(v[2], st)]
        else:
            opts = [(i, st.copy()) for i in (0, 2)]
        out = []
        for o, n in opts:
            if o == 2:
                out += isort_step(eng, n, done, j - 1, x, rest, f, loc, ret)
            else:
                out += isort_step(eng, n, done[:j] + (x,) + done[j:], None, None, rest, f, loc, ret)
        return out
    return finish_post(eng, st, TOP, ret)


def dedup_step(eng, st, kept, rest, f, loc, ret):
    """Vec::dedup_by on a list of known length: the closure is given (this, last kept)."""
    if not rest:
        eng.write(st, loc[0], loc[1], ("t", None, kept))
        return finish_post(eng, st, UNIT, ret)
    if not kept:
        return dedup_step(eng, st, rest[:1], rest[1:], f, loc, ret)
    fr = st.frames[-1]
    x = rest[0]
    q = enter_post(eng, st, _PCall(fr.body.bbs[fr.bb]["t"]), f,
                   [slot(eng, st, fr, "da", x), slot(eng, st, fr, "db", kept[-1])], ("dedup", kept, x, rest[1:], f, loc))
    if q is None:
        eng.write(st, loc[0], loc[1], TOP)
        return finish_post(eng, st, UNIT, ret)
    return q


def isort_step(eng, st, done, j, x, rest, f, loc, ret):
    """Stable sort of a list of known length with the given comparison."""
    if x is None:
        if not rest:
            eng.write(st, loc[0], loc[1], ("t", None, done))
            return finish_post(eng, st, UNIT, ret)
        x, rest, j = rest[0], rest[1:], len(done)
    if j == 0:
        return isort_step(eng, st, (x,) + done, None, None, rest, f, loc, ret)
    fr = st.frames[-1]
    q = enter_post(eng, st, _PCall(fr.body.bbs[fr.bb]["t"]), f,
                   [slot(eng, st, fr, "sa", done[j - 1]), slot(eng, st, fr, "sb", x)], ("isort", done, j, x, rest, f, loc))
    if q is None:
        eng.write(st, loc[0], loc[1], TOP)
        return finish_post(eng, st, UNIT, ret)
    return q


def slot(eng, st, fr, tag, v):
    b = eng.fresh(st, fr, tag, None)
    st.store[("O", b[1], None)] = v
    return ("r", ("O", b[1], None), ())


def m_list_post(step):
    def f(eng, st, call):
        loc = eng.deref(call.args[0])
        if loc is None or loc[0][0] == "K":
            return None
        x = eng.read(st, loc[0], loc[1])
        if x[0] != "t" or x[1] is not None or eng.closure_body(st, call.args[1]) is None:
            return None
        if step == "dedup":
            eng._pushed = dedup_step(eng, st, (), x[2], call.args[1], loc, call.term["t"])
        else:
            eng._pushed = isort_step(eng, st, (), None, None, x[2], call.args[1], loc, call.term["t"])
        return "pushed"
    return f


HOF_END = {"any": FALSE, "all": TRUE, "for_each": UNIT, "try_for_each": ("e", RES, 0, (UNIT,)),
           "find": ("e", OPT, 0, ()), "position": ("e", OPT, 0, ()), "find_map": ("e", OPT, 0, ())}


def hof_loop(eng, st, kind, it, f, ret, acc=None):
    fr = st.frames[-1]
    term = fr.body.bbs[fr.bb]["t"]
    out = []
    lazy = it[1] in ("map", "filter_map", "filter")
    for e, i2, n in iter_next(eng, st, it[2][0] if lazy else it, fr):
        if lazy:
            i2 = ("it", it[1], (i2,) + it[2][1:], 1)
        if e is None:
            if kind == "gather":
                out += gather_end(eng, n, f, acc, ret)
            else:
                out += finish_post(eng, n, acc if kind == "fold" else HOF_END[kind], ret)
        elif lazy:
            arg = e
            if it[1] == "filter":
                arg = boxed(eng, n, fr, e)
            q = enter_post(eng, n, _PCall(term), it[2][1], [arg], ("lazy", it[1], kind, i2, f, e, acc))
            if q is None:
                if it[1] == "filter":
                    q = hof_body(eng, n, kind, i2, f, e, ret, acc) + hof_loop(eng, n.copy(), kind, i2, f, ret, acc)
                else:
                    q = hof_body(eng, n, kind, i2, f, eng.fresh(n, fr, "mp", None), ret, acc)
            out += q
        else:
            out += hof_body(eng, n, kind, i2, f, e, ret, acc)
    return out


def boxed(eng, st, fr, e):
    b = eng.fresh(st, fr, "fd", None)
    st.store[("O", b[1], None)] = e
    return ("r", ("O", b[1], None), ())


def hof_body(eng, st, kind, it, f, e, ret, acc):
    fr = st.frames[-1]
    term = fr.body.bbs[fr.bb]["t"]
    if kind == "gather":
        if f[0] != "result":
            return hof_loop(eng, st, kind, it, f, ret, acc + (e,))
        out = []
        for vi, p, n in split2(eng, st, e, RES):
            out += hof_loop(eng, n, kind, it, f, ret, acc + (p,)) if vi == 0 else finish_post(eng, n, ("e", RES, 1, (p,)), ret)
        return out
    arg = boxed(eng, st, fr, e) if kind == "find" else e
    q = enter_post(eng, st, _PCall(term), f, [acc, arg] if kind == "fold" else [arg], (kind, it, f, e))
    if q is None:
        r = {"for_each": UNIT, "try_for_each": ("m", "tfe", None, ())}.get(kind, TOP)
        q = finish_post(eng, st, r, ret)
    return q


def gather_end(eng, st, f, acc, ret):
    v = ("t", None, acc)
    if f[0] == "result":
        v = ("e", RES, 0, (v,))
    elif f[0] == "extend":
        eng.write(st, f[1][0], f[1][1], ("t", None, f[2] + acc))
        v = UNIT
    elif f[0] == "count":
        v = ("c", len(acc))
    elif f[0] == "last":
        v = ("e", OPT, 1, (acc[-1],)) if acc else ("e", OPT, 0, ())
    elif f[0] == "sum":
        v = ("c", sum(x[1] for x in acc)) if all(x[0] == "c" for x in acc) else TOP
    return finish_post(eng, st, v, ret)


def m_gather(what):
    """collect, extend, count, last and sum over a source of known length (closures of map and filter are run)."""
    def f(eng, st, call):
        c = call.callee
        if c.res in eng.p.bodies:
            return None
        i = 1 if what == "extend" else 0
        it = call.args[i]
        if it[0] != "it":
            it = mk_iter(eng, st, it, call.argtys[i])
        src = it[2][0] if it[1] in ("map", "filter", "filter_map") else it
        if src[0] != "it" or src[1] != "list" or len(src[2]) > 96:
            return None
        tgt = (what,)
        dty = eng.placetype(call.body, call.term["d"])
        t = eng.p.types[dty] if dty is not None else {}
        if what == "collect":
            if t.get("d") == RES and eng.p.types[t["a"][0]].get("d") == "alloc::vec::Vec":
                tgt = ("result",)
            elif t.get("d") != "alloc::vec::Vec":
                return None
        elif what == "extend":
            loc = eng.deref(call.args[0])
            if loc is None or loc[0][0] == "K":
                return None
            old = aslist(eng, st, eng.read(st, loc[0], loc[1]))
            at = eng.p.types[call.argtys[0]] if call.argtys[0] is not None else {}
            if old is None or eng.p.types[at["a"][0]].get("d") != "alloc::vec::Vec" if at.get("a") else True:
                return None
            if it[1] == "list" and any(x[0] in ("r", "kp") for x in it[2]):
                ety = eng.p.types[at["a"][0]]["a"][0]
                if eng.p.types[ety]["k"] != "ref":
                    it = ("it", "list", tuple(eng.pointee(st, x) if x[0] in ("r", "kp") else x for x in it[2][it[3]:]), 0)
            tgt = ("extend", loc, old)
        eng._pushed = hof_loop(eng, st, "gather", it, tgt, call.term["t"], ())
        return "pushed"
    return f


def whole_range(v):
    """A range of known numbers, used as an iterator without conversion."""
    return v[0] == "t" and v[1] == "core::ops::range::Range" and len(v[2]) == 2 and all(x[0] == "c" for x in v[2])


def temporary(st, r):
    """Does r refer to a whole local without a name (a temporary nobody looks at again)?"""
    if r[0] != "r" or r[2] or r[1][0] != "L":
        return False
    d, l = r[1][1:3]
    return d < len(st.frames) and not st.frames[d].body.varname(l)


def m_fold(eng, st, call):
    it = call.args[0]
    if it[0] in ("r", "kp"):
        it = eng.pointee(st, it)
    elif whole_range(it):
        it = mk_iter(eng, st, it, call.argtys[0])
    if it[0] != "it" or eng.closure_body(st, call.args[2]) is None:
        return None
    eng._pushed = hof_loop(eng, st, "fold", it, call.args[2], call.term["t"], call.args[1])
    return "pushed"


def m_hof(kind):
    def f(eng, st, call):
        a = call.args[0]
        it = a
        if a[0] in ("r", "kp"):
            it = eng.pointee(st, a)
        if whole_range(it) and (a is it or temporary(st, a)):
            it = mk_iter(eng, st, it, None)
        if it[0] != "it":
            return None
        if eng.closure_body(st, call.args[1]) is None:
            return None
        eng._pushed = hof_loop(eng, st, kind, it, call.args[1], call.term["t"])
        return "pushed"
    return f


def m_opt_map(adt, want, wrap):
    """Option::map / Result::map (wrap) and and_then (no wrap)."""
    def f(eng, st, call):
        v = with_ty(call.args[0], call.argtys[0])
        out = []
        for vi, p, n in split2(eng, st, v, adt):
            if vi != want:
                r = ("e", adt, vi, (p,) if adt == RES else ())
                out += eng.finish([(r, n)], call, call.term)
            else:
                cont = ("wrap", adt, want) if wrap else ("plain",)
                q = enter_post(eng, n, call, call.args[1], [p], cont)
                if q is None:
                    if wrap:
                        q = eng.finish([(("e", adt, want, (eng.fresh(n, n.frames[-1], "om", None),)), n)], call, call.term)
                    else:
                        q = eng.finish(eng.opaque_call(n, call), call, call.term)
                out += q
        eng._pushed = out
        return "pushed"
    return f


def m_is_some_and(adt, want, default):
    def f(eng, st, call):
        v = with_ty(call.args[0], call.argtys[0])
        out = []
        for vi, p, n in split2(eng, st, v, adt):
            if vi != want:
                out += eng.finish([(default, n)], call, call.term)
            else:
                q = enter_post(eng, n, call, call.args[1], [p], ("plain",))
                if q is None:
                    q = eng.finish([(TOP, n)], call, call.term)
                out += q
        eng._pushed = out
        return "pushed"
    return f


def m_map_or(adt, want):
    def f(eng, st, call):
        v = with_ty(call.args[0], call.argtys[0])
        if eng.closure_body(st, call.args[2]) is None:
            return None
        out = []
        for vi, p, n in split2(eng, st, v, adt):
            if vi != want:
                out += eng.finish([(call.args[1], n)], call, call.term)
            else:
                q = enter_post(eng, n, call, call.args[2], [p], ("plain",))
                if q is None:
                    q = eng.finish(eng.opaque_call(n, call), call, call.term)
                out += q
        eng._pushed = out
        return "pushed"
    return f


def m_unwrap_or_else(adt, want):
    def f(eng, st, call):
        v = with_ty(call.args[0], call.argtys[0])
        out = []
        for vi, p, n in split2(eng, st, v, adt):
            if vi == want:
                out += eng.finish([(p, n)], call, call.term)
            else:
                q = enter_post(eng, n, call, call.args[1], [p] if adt == RES else [], ("plain",))
                if q is None:
                    q = eng.finish(eng.opaque_call(n, call), call, call.term)
                out += q
        eng._pushed = out
        return "pushed"
    return f


def m_discriminant_value(eng, st, call):
    v = eng.pointee(st, call.args[0])
    return [(eng.discr(st, v), st)]


def m_default_bool(eng, st, call):
    dty = eng.placetype(call.body, call.term["d"])
    k = eng.p.types[dty]["k"] if dty is not None else None
    if k == "bool" or k in ("uint", "int"):
        return [(("c", 0), st)]
    return None


def m_str1(fn):
    """String function applied to constants."""
    def f(eng, st, call):
        v = deep(eng, st, call.args[0])
        if v[0] == "s":
            return [(("s", fn(v[1])), st)]
        return None
    return f


def m_str2(fn):
    def f(eng, st, call):
        a, b = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
        if a[0] in ("s", "b") and b[0] == "c":
            b = ("s", chr(b[1]))
        if a[0] == "s" and b[0] == "s":
            return [(("c", int(fn(a[1], b[1]))), st)]
        return None
    return f


def m_strip(fn):
    def f(eng, st, call):
        a, b = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
        if b[0] == "c":
            b = ("s", chr(b[1]))
        if a[0] == "s" and b[0] == "s":
            r = fn(a[1], b[1])
            return [(("e", OPT, 0, ()) if r is None else ("e", OPT, 1, (("s", r),)), st)]
        return None
    return f


def m_find(eng, st, call):
    a, b = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
    if b[0] == "c":
        b = ("s", chr(b[1]))
    if a[0] == "s" and b[0] == "s":
        i = a[1].find(b[1])
        return [(("e", OPT, 0, ()) if i < 0 else ("e", OPT, 1, (("c", len(a[1][:i].encode())),)), st)]
    return None


def m_chars(eng, st, call):
    a = deep(eng, st, call.args[0])
    if a[0] == "s" and len(a[1]) <= 40:
        return [(("it", "list", tuple(("c", ord(x)) for x in a[1]), 0), st)]
    return None


def m_char(fn, ascii=False):
    """Predicate or map of one constant character."""
    def f(eng, st, call):
        a = deep(eng, st, call.args[0])
        if a[0] == "c" and 0 <= a[1] < (0x110000 if ascii else 128):
            r = fn(chr(a[1])) and a[1] < 128
            return [(("c", int(r)), st)]
        return None
    return f


def m_clone_into(eng, st, call):
    loc = eng.deref(call.args[1])
    if loc is None or loc[0][0] == "K":
        return None
    eng.write(st, loc[0], loc[1], eng.pointee(st, call.args[0]))
    return [(UNIT, st)]


def m_unit(eng, st, call):
    return [(UNIT, st)]


def m_xor_ref(eng, st, call):
    return None


_O = "core::option::Option::<T>::"
_R = "core::result::Result::<T, E>::"
_I = "core::iter::traits::iterator::Iterator::"
_ORD = "core::cmp::Ordering::"
MODELS = {
    "core::ops::try_trait::Try::branch": m_branch,
    "core::ops::try_trait::FromResidual::from_residual": m_from_residual,
    "core::ops::deref::Deref::deref": m_deref,
    "core::ops::deref::DerefMut::deref_mut": m_deref,
    "alloc::vec::Vec::<T, A>::dedup_by": m_list_post("dedup"), "alloc::slice::<impl [T]>::sort_by": m_list_post("isort"),
    "core::slice::<impl [T]>::sort_unstable_by": m_list_post("isort"),
    "core::ops::index::Index::index": m_index,
    "core::ops::index::IndexMut::index_mut": m_index,
    "alloc::vec::Vec::<T, A>::len": m_len,
    "core::slice::<impl [T]>::len": m_len,
    "core::str::<impl str>::len": m_len,
    "alloc::string::String::len": m_len,
    "alloc::vec::Vec::<T, A>::is_empty": m_is_empty,
    "core::slice::<impl [T]>::is_empty": m_is_empty,
    "core::str::<impl str>::is_empty": m_is_empty,
    "alloc::string::String::is_empty": m_is_empty,
    "alloc::string::String::as_bytes": m_ident,
    "alloc::string::String::as_str": m_ident,
    "core::str::<impl str>::as_bytes": m_ident,
    "alloc::vec::Vec::<T, A>::as_slice": m_ident,
    "alloc::vec::Vec::<T, A>::as_mut_slice": m_ident,
    "core::convert::AsRef::as_ref": None,
    "core::hint::must_use": m_ident,
    "anyhow::__private::must_use": m_ident,
    _O + "is_some": m_is_variant(OPT, 1), _O + "is_none": m_is_variant(OPT, 0),
    _R + "is_ok": m_is_variant(RES, 0), _R + "is_err": m_is_variant(RES, 1),
    _O + "unwrap": m_unwrap(OPT, 1), _O + "expect": m_unwrap(OPT, 1),
    _R + "unwrap": m_unwrap(RES, 0), _R + "expect": m_unwrap(RES, 0),
    _R + "unwrap_err": m_unwrap(RES, 1),
    _O + "as_ref": m_as_ref, _O + "as_mut": m_as_ref, _R + "as_ref": m_as_ref, _R + "as_mut": m_as_ref,
    _O + "take": m_take, _R + "ok": m_ok, _R + "map_err": m_map_err,
    _O + "ok_or": m_ok_or, _O + "ok_or_else": m_ok_or,
    _O + "unwrap_or": m_unwrap_or(OPT, 1), _R + "unwrap_or": m_unwrap_or(RES, 0),
    _O + "unwrap_or_else": m_unwrap_or_else(OPT, 1), _R + "unwrap_or_else": m_unwrap_or_else(RES, 0),
    _O + "map": m_opt_map(OPT, 1, True), _R + "map": m_opt_map(RES, 0, True),
    _O + "map_or": m_map_or(OPT, 1), _R + "map_or": m_map_or(RES, 0),
    _O + "and_then": m_opt_map(OPT, 1, False), _R + "and_then": m_opt_map(RES, 0, False),
    _O + "is_some_and": m_is_some_and(OPT, 1, FALSE), _O + "is_none_or": m_is_some_and(OPT, 1, TRUE),
    _R + "is_ok_and": m_is_some_and(RES, 0, FALSE),
    _ORD + "reverse": m_reverse, _ORD + "then": m_then, _ORD + "then_with": m_then_with,
    _ORD + "is_eq": m_ord_pred((1,)), _ORD + "is_ne": m_ord_pred((0, 2)), _ORD + "is_lt": m_ord_pred((0,)),
    _ORD + "is_gt": m_ord_pred((2,)), _ORD + "is_le": m_ord_pred((0, 1)), _ORD + "is_ge": m_ord_pred((1, 2)),
    "core::cmp::PartialEq::eq": m_eq(False), "core::cmp::PartialEq::ne": m_eq(True),
    "core::cmp::Ord::cmp": named2("cmp"), "core::cmp::PartialOrd::partial_cmp": named2("pcmp"),
    "core::cmp::PartialOrd::lt": named2("lt"), "core::cmp::PartialOrd::le": named2("le"),
    "core::cmp::PartialOrd::gt": named2("gt"), "core::cmp::PartialOrd::ge": named2("ge"),
    "core::str::<impl str>::eq_ignore_ascii_case": named2("eqic", sym=True),
    "core::mem::replace": m_replace, "core::mem::take": m_mem_take, "core::mem::swap": m_swap,
    "core::clone::Clone::clone": m_clone,
    "alloc::boxed::Box::<T>::new": m_box_new,
    "alloc::vec::Vec::<T>::new": empty_fresh, "alloc::string::String::new": empty_fresh,
    "alloc::vec::Vec::<T>::with_capacity": empty_fresh,
    "alloc::vec::Vec::<T, A>::extend_from_slice": m_list_op("extend"), "alloc::vec::Vec::<T, A>::truncate": m_list_op("truncate"),
    "alloc::vec::Vec::<T, A>::pop": m_list_op("pop"), "alloc::vec::Vec::<T, A>::insert": m_list_op("insert"),
    "alloc::vec::Vec::<T, A>::remove": m_list_op("remove"), "alloc::vec::Vec::<T, A>::append": m_list_op("append"),
    "alloc::vec::Vec::<T, A>::push": m_push, "alloc::vec::Vec::<T, A>::clear": m_clear,
    "alloc::string::String::clear": m_clear,
    "core::iter::traits::collect::IntoIterator::into_iter": m_into_iter,
    "core::slice::<impl [T]>::copy_from_slice": m_copy_from_slice, "core::slice::<impl [T]>::clone_from_slice": m_copy_from_slice,
    "core::slice::<impl [T]>::contains": m_contains,
    "core::num::<impl u8>::make_ascii_lowercase": m_make_lower, "core::num::<impl u8>::to_ascii_lowercase": m_to_lower,
    "core::slice::ascii::<impl [u8]>::make_ascii_lowercase": m_make_lower,
    "core::slice::<impl [T]>::iter": m_iter, "core::slice::<impl [T]>::iter_mut": m_iter,
    "alloc::vec::Vec::<T, A>::drain": None,
    "core::str::<impl str>::split": m_str_split, "core::str::<impl str>::split_once": m_split_once,
    "core::slice::<impl [T]>::split_first": m_split_first(False), "core::slice::<impl [T]>::split_last": m_split_first(True),
    "core::slice::<impl [T]>::split_first_mut": m_split_first(False), "core::slice::<impl [T]>::split_last_mut": m_split_first(True),
    "core::slice::<impl [T]>::first": m_get_el("first"), "core::slice::<impl [T]>::last": m_get_el("last"),
    "core::slice::<impl [T]>::first_mut": m_get_el("first"), "core::slice::<impl [T]>::last_mut": m_get_el("last"),
    "core::slice::<impl [T]>::get": m_get_el("get"), "core::slice::<impl [T]>::get_mut": m_get_el("get"),
    _I + "chain": m_adapt("chain"),
    _I + "fold": m_fold, _I + "find_map": m_hof("find_map"), _I + "count": m_gather("count"), _I + "collect": m_gather("collect"),
    _I + "last": m_gather("last"), _I + "sum": m_gather("sum"), "core::iter::traits::collect::Extend::extend": m_gather("extend"),
    "alloc::vec::from_elem": m_from_elem,
    _I + "next": m_next,
    _I + "enumerate": m_adapt("enumerate"), _I + "rev": m_adapt("rev"), _I + "zip": m_adapt("zip"),
    _I + "map": m_adapt("map"), _I + "filter": m_adapt("filter"), _I + "filter_map": m_adapt("filter_map"),
    _I + "copied": m_adapt("copied"),
    _I + "cloned": m_adapt("copied"), _I + "skip": m_adapt("skip"), _I + "take": m_adapt("take"),
    _I + "peekable": m_adapt("peekable"), _I + "step_by": m_adapt("step_by"),
    _I + "any": m_hof("any"), _I + "all": m_hof("all"), _I + "for_each": m_hof("for_each"),
    _I + "try_for_each": m_hof("try_for_each"), _I + "find": m_hof("find"), _I + "position": m_hof("position"),
    _I + "by_ref": m_ident,
    "core::intrinsics::discriminant_value": m_discriminant_value,
    "core::default::Default::default": m_default_bool,
    "core::convert::Into::into": m_ident, "core::convert::From::from": None,
    "alloc::borrow::ToOwned::to_owned": m_clone,
    "alloc::str::<impl str>::to_lowercase": m_str1(str.lower),
    "alloc::str::<impl str>::to_uppercase": m_str1(str.upper),
    "alloc::str::<impl str>::to_ascii_lowercase": m_str1(str.lower),
    "alloc::str::<impl str>::to_ascii_uppercase": m_str1(str.upper),
    "alloc::string::ToString::to_string": m_str1(lambda x: x),
    "core::str::<impl str>::trim": m_str1(str.strip),
    "core::str::<impl str>::starts_with": m_str2(lambda a, b: a.startswith(b)),
    "core::str::<impl str>::ends_with": m_str2(lambda a, b: a.endswith(b)),
    "core::str::<impl str>::contains": m_str2(lambda a, b: b in a),
    "alloc::borrow::ToOwned::clone_into": m_clone_into,
    "core::str::<impl str>::find": m_find, "core::str::<impl str>::chars": m_chars,
    "core::char::methods::<impl char>::is_ascii_digit": m_char(str.isdigit, True),
    "core::char::methods::<impl char>::is_ascii_alphanumeric": m_char(str.isalnum, True),
    "core::num::<impl u8>::is_ascii_digit": m_char(str.isdigit, True),
    "core::num::<impl u8>::is_ascii_alphanumeric": m_char(str.isalnum, True),
    "core::char::methods::<impl char>::is_alphabetic": m_char(str.isalpha),
    "core::char::methods::<impl char>::is_alphanumeric": m_char(str.isalnum),
    "core::char::methods::<impl char>::is_whitespace": m_char(str.isspace),
    "core::char::methods::<impl char>::len_utf8": m_char(lambda c: len(c.encode())),
    "core::str::<impl str>::strip_prefix": m_strip(lambda a, b: a[len(b):] if a.startswith(b) else None),
    "core::str::<impl str>::strip_suffix": m_strip(lambda a, b: a[:len(a) - len(b)] if a.endswith(b) else None),
    "core::convert::num::<impl core::convert::From<bool> for usize>::from": m_ident,
}
MODELS = {k: v for k, v in MODELS.items() if v is not None}


def model_by_suffix(c):
    return None
