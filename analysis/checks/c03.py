"""C03: the exit status reflects the outcome."""
from ..world import XMODELS, tools
from ..absint import Undecided, mk, deepval, UNIT, TRUE, FALSE
from ..models import RES, OPT
from .. import toolruns
from .c02 import errors_propagate
from .c10 import check_status
from .common import obj, par, where, outcomes, variants, variant_of, boolof

CDX = "cdx::util::CdxError"
IOERR = ("core::io::error::Error", "std::io::error::Error")
KIND = "core::io::error::ErrorKind"
BROKEN_PIPE = 11            # position in std::io::ErrorKind
NKINDS = 41
EPRINT = ("std::io::stdio::_eprint",)
PRINTS = EPRINT + ("std::io::stdio::_print",)
MAIN, INNER = "bin::main", "bin::inner_main"


def kinds(prog):
    """Every kind of error a tool can return, as far as the program can tell them apart."""
    return ["cdx " + v["name"] for v in variants(prog, CDX)] + ["io %d" % i for i in range(NKINDS)] + ["other"]


def title(kind):
    if kind == "io %d" % BROKEN_PIPE:
        return "a broken pipe"
    return {"i": "an I/O error (kind %s)", "c": "CdxError::%s", "o": "any other error%.0s"}[kind[0]] % kind.split()[-1]


def quiet(kind):
    return kind in ("cdx NoError", "io %d" % BROKEN_PIPE)


def answers(prog, kind, eng, st, call):
    """What an error of this kind answers when it is asked what it is (None: not such a question)."""
    c = call.callee
    if c is None:
        return None
    if c.name in ("downcast_ref", "downcast_mut", "downcast", "is") and "anyhow" in (c.res or c.fn or ""):
        t = prog.types[eng.placetype(call.body, call.term["d"])]
        if t.get("d") != OPT:
            raise Undecided("error inspected with %s" % c.name)
        inner = t["a"][0]
        pt = prog.peel(inner)
        adt = prog.adt_of(pt)
        if adt == CDX and kind.startswith("cdx "):
            i = [k for k, v in enumerate(variants(prog, CDX)) if v["name"] == kind[4:]][0]
            fs = tuple(mk("text%d" % k, f["ty"]) for k, f in enumerate(variants(prog, CDX)[i]["fields"]))
            st.store[("O", "the error", pt)] = ("e", CDX, i, fs)
            return [(("e", OPT, 1, (("r", ("O", "the error", pt), ()),)), st)]
        if adt in IOERR and kind.startswith("io "):
            return [(("e", OPT, 1, (mk("ioerr", inner),)), st)]
        return [(("e", OPT, 0, ()), st)]
    if c.name == "kind" and "io::error" in (c.res or c.fn or "") and kind.startswith("io "):
        return [(("e", KIND, int(kind[3:]), ()), st)]
    if c.name in ("eq", "ne") and c.trait == "core::cmp::PartialEq" and len(call.args) == 2:
        a, b = [deepval(eng, st, x) for x in call.args]
        if a[0] == b[0] == "e" and a[1] == b[1] == KIND:
            return [(TRUE if (a[2] == b[2]) == (c.name == "eq") else FALSE, st)]
    return None


def add(mon, x):
    return mon if x in mon else mon + (x,)


def classification(prog, rep, tier):
    """suppress() singles out exactly the quiet kinds, silent() exactly CdxError::Silent."""
    for name, want in (("cdx::util::suppress", quiet), ("cdx::util::silent", lambda k: k == "cdx Silent")):
        b = prog.bodies.get(name)
        if b is None:
            rep.unk("classification", name, "not found")
            continue
        for k in kinds(prog):
            try:
                m = outcomes(prog, name, hook=lambda e, s, c: answers(prog, k, e, s, c))
                got = {boolof(m.eng, st, v) for v, st in m.outs}
                if None in got or not got:
                    raise Undecided("answer not known")
            except Undecided as e:
                rep.unk("classification", "%s %s" % (name, k), e)
                continue
            if got != {want(k)}:
                rep.bad("classification", "%s:%s" % (name, k), where(b), "%s says %s for %s" % (name, sorted(got), title(k)))
            else:
                rep.ok("classification", "%s for %s is %s" % (name, title(k), want(k)))


def top_level(prog, rep, tier):
    """The program's main: success gives status 0; the quiet kinds give 0; every other error gives a non-zero status, with a
    message on standard error unless it is the already-reported kind."""
    b = prog.bodies.get(MAIN)
    if b is None or INNER not in prog.bodies:
        rep.unk("top_level", MAIN, "not found")
        return
    for k in ["success"] + kinds(prog):
        ends = []

        def hook(eng, st, call):
            c = call.callee
            if c is None:
                return None
            n = c.res or c.fn
            if n == INNER:
                st.mon = st.mon + ("ran",)
                return [(("e", RES, 0, (UNIT,)) if k == "success" else ("e", RES, 1, (mk("the failure", None),)), st)]
            if n in PRINTS or c.fn in PRINTS:
                st.mon = add(st.mon, ("E" if n in EPRINT or c.fn in EPRINT else "O") + ("!" if "the failure" in repr(deepval(eng, st, call.args[0])) else ""))
                return [(UNIT, st)]
            if n == "std::process::exit":
                v = eng.norm(st, call.args[0])
                ends.append((v[1] if v[0] == "c" else None, st))
                return []
            if n == "std::process::abort":
                ends.append((134, st))
                return []
            if "::fmt::rt::" in n or "::fmt::Arguments" in n:
                vs = tuple(deepval(eng, st, a) for a in call.args)
                dty = eng.placetype(call.body, call.term["d"])
                return [(mk("text(%s)" % ("the failure" if "the failure" in repr(vs) else ""), dty), st)]
            return answers(prog, k, eng, st, call)
        try:
            m = outcomes(prog, MAIN, hook=hook)
        except Undecided as e:
            rep.unk("top_level", k, e)
            continue
        unit = prog.types[b.locals[0]]
        for v, st in m.outs:
            if unit["k"] == "tuple" and not unit.get("a"):
                ends.append((0, st))
            elif unit.get("d") == RES:
                i = variant_of(m.eng, st, v)
                ends.append((i if i is not None else None, st))
                if i == 1:
                    st.mon = st.mon + ("E!",)
            else:
                ends.append((None, st))
        bad = None
        if not ends or any(s is None for s, st in ends):
            rep.unk("top_level", k, "exit status not known")
            continue
        for s, st in ends:
            if "ran" not in st.mon:
                continue
            zero = k == "success" or quiet(k)
            if (s & 255 == 0) != zero:
                bad = bad or ("%s gives exit status %d" % ("success" if k == "success" else title(k), s), st)
            elif not zero and k != "cdx Silent" and "E!" not in st.mon:
                bad = bad or ("%s gives no message on standard error" % title(k), st)
            elif (zero or k == "cdx Silent") and any(x[0] == "E" for x in st.mon if x != "ran"):
                bad = bad or ("%s prints an error message" % ("success" if k == "success" else title(k)), st)
        if bad:
            rep.bad("top_level", "%s:%s" % (MAIN, k), where(b), bad[0], bad[1].trace())
        else:
            rep.ok("top_level", "%s: status %s" % ("success" if k == "success" else title(k), sorted({s for s, st in ends})))


def dispatch(prog, rep, tier):
    """Each listed tool name runs that tool, whose result is the result; any other name is a failure."""
    b = prog.bodies.get(INNER)
    if b is None:
        rep.unk("dispatch", INNER, "not found")
        return
    ts = tools(prog)
    names = list(ts) + ["nosuch", "", "wc2", "so", "SORT", "cd", " cat", "helpme", "bin::main", None]
    for nm in names:
        for res in (0, 1):
            def hook(eng, st, call):
                c = call.callee
                if c is None:
                    f = eng.operand(st, call.term["f"], len(st.frames) - 1)
                    f = deepval(eng, st, f)
                    n = f[1] if f[0] == "fn" else None
                    if n is None:
                        raise Undecided("which tool is called is not known")
                else:
                    n = c.res or c.fn
                if n in ts.values():
                    st.mon = st.mon + (n,)
                    return [(("e", RES, res, (UNIT if res == 0 else mk("tool failed", None),)), st)]
                if c is None:
                    return None
                if n in PRINTS:
                    st.mon = add(st.mon, "print")
                    return [(UNIT, st)]
                if n == "cdx::util::cdx_err":
                    v = deepval(eng, st, call.args[0])
                    st.mon = st.mon + (("E", variants(prog, CDX)[v[2]]["name"] if v[0] == "e" else "?"),)
                    return [(("e", RES, 1, (mk("own failure", None),)), st)]
                if "::fmt::rt::" in n or "::fmt::Arguments" in n:
                    return [(mk("text", eng.placetype(call.body, call.term["d"])), st)]
                x = XMODELS.get(c.target) if (c.target or "").startswith("alloc::vec::Vec::<T, A>::") else None
                return x(None, eng, st, call) if x is not None else None
            argv = ("t", None, (("s", "cdx"),) + ((("s", nm),) if nm is not None else ()))
            try:
                m = outcomes(prog, INNER, {1: argv}, hook=hook, join_k=500, head_k=200, steps=20000)
                if not m.outs:
                    raise Undecided("no outcome")
                bad = None
                for v, st in m.outs:
                    i = variant_of(m.eng, st, v)
                    if i is None:
                        raise Undecided("result not known")
                    ran = [x for x in st.mon if x in ts.values()]
                    own = [x for x in st.mon if isinstance(x, tuple)]
                    if nm in ts:
                        if ran != [ts[nm]]:
                            bad = bad or ("asking for '%s' runs %s" % (nm, ran or "nothing"), st)
                        elif i != res or i == 1 and "tool failed" not in repr(v):
                            bad = bad or ("the result of '%s' is not the result of the program" % nm, st)
                    elif ran:
                        bad = bad or ("asking for '%s' runs %s" % (nm, ran), st)
                    elif i != 1 or ("E", "NoError") in own:
                        bad = bad or ("%s is not a failure" % ("asking for unknown tool '%s'" % nm if nm is not None else "giving no tool"), st)
                    elif ("E", "Silent") in own and "print" not in st.mon:
                        bad = bad or ("%s fails without a message" % ("asking for unknown tool '%s'" % nm if nm is not None else "giving no tool"), st)
            except Undecided as e:
                rep.unk("dispatch", "%s %d" % (nm, res), e)
                continue
            if bad:
                rep.bad("dispatch", "%s:%s" % (INNER, nm), where(b), bad[0], bad[1].trace())
            else:
                rep.ok("dispatch", "'%s'%s" % (nm, " failing" if res else ""))


def makes(prog, b, names):
    """Blocks of this body that construct one of the named CdxError variants."""
    for i, bb in enumerate(b.bbs):
        for s in bb["s"]:
            if s[0] == "=" and isinstance(s[2], dict) and s[2].get("k") == "agg" and s[2].get("d") == CDX and s[2].get("vn") in names:
                yield i, s[2]["vn"], s[3]


def reported(prog, rep, tier):
    """A tool that ends with the already-reported or the not-an-error kind has printed something on the way."""
    g = prog.callgraph()
    printing = prog.reaches(lambda x: x in PRINTS or x.startswith("std::io::stdio::std"))
    makers = {p for p, b in prog.bodies.items() if any(True for _ in makes(prog, b, ("Silent", "NoError")))}
    js = []
    for job in toolruns.jobs(prog, rep, "reported"):
        tool, path, label, files, opts = job
        mod = path.rsplit("::", 1)[0]
        if any(p.startswith(mod + "::") for p in makers):
            js.append(job)

    def judge(job, rep):
        tool, path, label, files, opts = job
        nm = ("%s %s" % (tool, label)).strip()
        w = toolruns.run(prog, path, files, opts)
        n = 0
        for v, st in w.exits:
            if v[0] != "e" or v[2] != 1:
                continue
            kind = w.eng.nm(v)
            if "err:cdx:Silent" not in kind and "err:cdx:NoError" not in kind:
                continue
            n += 1
            said = False
            for e in st.mon[1]:
                if e[0] == "print":
                    said = True
                elif e[0] == "act":
                    said = said or any(p in printing for p in prog.bodies if p.rsplit("::", 1)[-1] == e[1])
            if "NoError" in kind and any(e[0] in ("open", "w") for e in st.mon[1]):
                rep.bad("reported", "%s:noerror" % tool, where(prog.bodies[path]), "%s: ends as 'not an error' after work has begun" % nm, st.trace())
                return
            if not said:
                rep.bad("reported", "%s:silent" % tool, where(prog.bodies[path]),
                        "%s: fails without having reported anything" % nm, st.trace())
                return
        rep.ok("reported", "%s (%d already-reported outcomes)" % (nm, n))
    par(rep, js, judge)
    # the other makers: something must be printed on every path to the construction
    for p in sorted(makers):
        b = prog.bodies[p]
        if any(p.startswith(path.rsplit("::", 1)[0] + "::") for path in tools(prog).values()) or p == INNER:
            continue
        for bb, vn, line in makes(prog, b, ("Silent", "NoError")):
            if printed_before(prog, b, bb, printing, set()):
                rep.ok("reported", "%s:%d %s" % (p, line, vn))
            else:
                rep.bad("reported", "%s:%s" % (p, vn), "%s:%d in %s" % (b.file, line, p),
                        "CdxError::%s is returned on a path where nothing has been printed" % vn)


def printed_before(prog, b, target, printing, seen):
    """Has something (possibly) been printed on every path to this block?"""
    preds = {}
    for i, bb in enumerate(b.bbs):
        if bb["c"]:
            continue
        t = bb["t"]
        nx = [t.get("t")] + [x[1] for x in t.get("ts", [])] + [t.get("else")]
        for n in nx:
            if isinstance(n, int):
                preds.setdefault(n, []).append(i)
    done, todo = set(), [target]
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        if x == 0:
            # reached the entry: the callers must have printed
            if b.path in seen or len(seen) > 3:
                return False
            sites = [(q, i) for q, qb in prog.bodies.items() for i, t in qb.calls()
                     if (prog.callee(t) and b.path in (prog.callee(t).res, prog.callee(t).fn))]
            return bool(sites) and all(printed_before(prog, prog.bodies[q], i, printing, seen | {b.path}) for q, i in sites)
        for q in preds.get(x, []):
            t = b.bbs[q]["t"]
            if t["k"] == "call":
                c = prog.callee(t)
                if c is not None and (c.fn in PRINTS or any(x in printing for x in prog.local_targets(c)) or c.target in printing):
                    continue
            todo.append(q)
    return True


def own_exits(prog, rep, tier):
    """Nothing but the program's main ends the process."""
    n = 0
    for p, b in sorted(prog.bodies.items()):
        for i, t in b.calls():
            c = prog.callee(t)
            if c is None or (c.res or c.fn) not in ("std::process::exit",):
                continue
            n += 1
            a = t["args"][0]
            if p != MAIN and a.get("k") == "const" and a.get("v") == 0 and not only_from_main(prog, p):
                rep.bad("own_exits", p, "%s:%d in %s" % (b.file, t["ln"], p), "the process is ended with status 0 from within a tool")
            else:
                rep.ok("own_exits", "%s:%d" % (p, t["ln"]))
    if not n:
        rep.unk("own_exits", "process::exit", "no call")


def only_from_main(prog, p, d=0):
    callers = [q for q, s in prog.callgraph().items() if p in s]
    return d < 4 and bool(callers) and all(q == MAIN or only_from_main(prog, q, d + 1) for q in callers)


def tooltest_verdict(prog, rep, tier):
    """A failed tool test is counted as failed, and a run with failed tests fails."""
    T = "cdx::tooltest::"
    b = prog.bodies.get(T + "Config::report")
    if b is None:
        rep.unk("tooltest_verdict", "report", "not found")
    else:
        bad = None
        try:
            for f in (0, 1, 2):
                for ps in (0, 1, 2):
                    slf, store = obj(prog, b, 1, "self", {"fail": ("c", f), "pass": ("c", ps)})
                    m = outcomes(prog, b.path, {1: slf}, store=store)
                    got = {variant_of(m.eng, st, v) for v, st in m.outs}
                    if got != {1 if f else 0}:
                        bad = bad or "%d failed and %d passed tests give %s" % (f, ps, ["success" if x == 0 else "failure" for x in got])
        except Undecided as e:
            rep.unk("tooltest_verdict", b.path, e)
        else:
            if bad:
                rep.bad("tooltest_verdict", b.path, where(b), bad)
            else:
                rep.ok("tooltest_verdict", "%s: 9 counts" % b.path)
    b = prog.bodies.get(T + "Config::run")
    if b is None:
        rep.unk("tooltest_verdict", "run", "not found")
    else:
        bad, cases = None, 0
        try:
            slf, store = obj(prog, b, 1, "self", {"fail": ("c", 0), "pass": ("c", 0)})

            def hook(eng, st, call):
                c = call.callee
                if c is None or not c.res:
                    return None
                if c.res in (T + "Test::run", T + "Test::open"):
                    out = []
                    for v, n in ((("e", RES, 1, (mk("failure", None),)), "error"),) + (
                            ((("e", RES, 0, (TRUE,)), "passed"), (("e", RES, 0, (FALSE,)), "failed")) if c.name == "run" else
                            ((("e", RES, 0, (UNIT,)), "opened"),)):
                        x = st.copy()
                        x.mon = st.mon + (n,)
                        out.append((v, x))
                    return out
                return None
            m = outcomes(prog, b.path, {1: slf}, store=store, hook=hook, relevant=lambda q: q.startswith(T + "Config::"))
            for v, st in m.outs:
                cnt = {}
                for k, val in st.store.items():
                    if k[0] == "O" and k[1] == "self*":
                        for i, f in enumerate(prog.adts[T + "Config"]["variants"][0]["fields"]):
                            cnt[f["name"]] = m.eng.child(val, ("f", i), None, "." + f["name"])
                if cnt.get("fail", ("m",))[0] != "c":
                    raise Undecided("counters not known")
                cases += 1
                fails = "error" in st.mon or "failed" in st.mon
                if "run" in st.mon and not fails and "passed" not in st.mon:
                    continue
                if (cnt["fail"][1] > 0) != fails:
                    bad = bad or ("a test that %s is counted as %s" % ("fails" if fails else "passes", "failed" if cnt["fail"][1] else "passed"), st.trace())
        except Undecided as e:
            rep.unk("tooltest_verdict", b.path, e)
        else:
            if bad:
                rep.bad("tooltest_verdict", b.path, where(b), bad[0], bad[1])
            else:
                rep.ok("tooltest_verdict", "%s: %d outcomes" % (b.path, cases))


RULES = [classification, top_level, dispatch, reported, own_exits, tooltest_verdict, errors_propagate, check_status]
