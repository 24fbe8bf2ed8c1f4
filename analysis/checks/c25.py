"""C25: binary search selects exactly the records a linear scan selects, with the asked for context."""
import itertools
from .. import absint
from ..absint import Undecided, UNIT, TRUE, FALSE, mk
from ..models import RES, OPT, aslist, deep, sub_range
from .c26 import text_hook
from .common import where, par, outcomes, enumval, adt_ty

BS = "cdx::binsearch::"
ORD = "core::cmp::Ordering"
S = lambda s: ("s", s)
OK = lambda v: ("e", RES, 0, (v,))


class Astray(Exception):
    """A comparison with what is not a record, or no end of comparisons."""


def blist(b):
    return ("t", None, tuple(("c", x) for x in b))


def asbytes(eng, st, v):
    v = deep(eng, st, v)
    if v[0] == "s":
        return v[1].encode("utf-8", "surrogateescape")
    l = aslist(eng, st, v)
    if l is None:
        raise Undecided("bytes %s" % (str(v)[:150],))
    out = []
    for x in l:
        x = deep(eng, st, x)
        if x[0] != "c":
            raise Undecided("byte")
        out.append(x[1])
    return bytes(out)


def files(tier):
    """(header, lines, has final newline) of the files: line i is made of its own letter."""
    lens = (0, 1, 2, 4) if tier == "quick" else (0, 1, 2, 3, 6)
    for n in range(0, 5):
        for ls in itertools.product(lens if n < 4 else (0, 1, 3), repeat=n):
            for nl in ((True, False) if n and ls[-1] else (True,)):
                yield ls, nl
    for n in (5, 6, 7, 9):
        for l in (1, 3):
            for nl in (True, False):
                yield (l,) * n, nl
        yield tuple(1 + (i * 5) % 4 for i in range(n)), True
        yield tuple((i * 3) % 4 for i in range(n)), True


def lines(ls, nl):
    out = [bytes([97 + i]) * l + b"\n" for i, l in enumerate(ls)]
    if out and not nl:
        out[-1] = out[-1][:-1]
    return out


def orders(ls):
    """(number of lines before, number equal) of the value sought; records that are the same compare the same."""
    n = len(ls)
    for i in range(n + 1):
        for j in range(n + 1 - i):
            cls = [0 if k < i else 1 if k < i + j else 2 for k in range(n)]
            if len({c for c, l in zip(cls, ls) if l == 0}) <= 1:
                yield i, j


def comparer(prog, recs, i, j):
    """The answers of the comparison of the value sought with a record."""
    o = {k: enumval(prog, ORD, k) for k in ("Less", "Equal", "Greater")}
    m = {}
    for k, r in enumerate(recs):
        m[r] = "Greater" if k < i else "Equal" if k < i + j else "Less"
    bound = 40 + 20 * len(recs)

    def hook(eng, st, call):
        nm, tgt = call.callee.name, call.callee.target or ""
        if nm in ("comp_self_line", "equal_self_line") and tgt.startswith("cdx::comp::"):
            b = asbytes(eng, st, call.args[1])
            st.mon = (st.mon[0] + 1,) + st.mon[1:]
            if b not in m:
                raise Astray("compares %r, which is not a record" % b.decode())
            if st.mon[0] > bound:
                raise Astray("does not come to an end")
            if nm == "equal_self_line":
                return [(TRUE if m[b] == "Equal" else FALSE, st)]
            return [(o[m[b]], st)]
    return hook


def run(prog, path, args, store, hook, steps=40000):
    if path not in prog.bodies:
        raise Undecided("no function " + path)
    old = absint.CAP, absint.TERM
    absint.CAP, absint.TERM = 100000, (4000, 400, 4000)
    try:
        m = outcomes(prog, path, args=args, store=store, hook=hook, init=(0, b""), lists=True, head_k=4000, join_k=10**6, steps=steps)
    finally:
        absint.CAP, absint.TERM = old
    if m.eng.blind:
        raise Undecided("a branch that is not followed in " + path)
    if not m.outs:
        raise Astray("does not come to an end, or panics")
    if len(m.outs) != 1:
        raise Undecided("%d outcomes" % len(m.outs))
    return m.eng, m.outs[0][0], m.outs[0][1]


def show(recs, i, j):
    t = "".join(r.decode() for r in recs)
    return "%r for a value %s" % (t, "equal to records %d to %d" % (i + 1, i + j) if j else "between records %d and %d" % (i, i + 1))


def num(v):
    if v[0] != "c":
        raise Undecided("position")
    return v[1]


def pair(eng, st, v):
    v = deep(eng, st, v)
    if v[0] == "t" and len(v[2]) == 2:
        return num(v[2][0]), num(v[2][1])
    raise Undecided("range")


def ranges(prog, rep, tier):
    rep.rule("ranges", "on every file of the enumerated shapes (numbers and lengths of lines, empty lines, with and without final newline) and for every "
             "place of the value sought in the order, lower_bound_n returns the first equal line (an empty range if none is equal), upper_bound_n the start of "
             "the first greater line, equal_range_n exactly the equal lines; only whole lines are compared and every search ends")
    root = ("O", "data", None)

    def one(args, out):
        ls, nl = args
        recs = lines(ls, nl)
        data = b"".join(recs)
        starts = [0]
        for r in recs:
            starts.append(starts[-1] + len(r))
        for i, j in orders(ls):
            if len(out.violations) > 4 or len(out.undecided) > 8:
                return      # enough is known about this file
            for fn in ("lower_bound_n", "upper_bound_n", "equal_range_n"):
                what = "%s in %s" % (fn, show(recs, i, j))
                b = prog.bodies.get(BS + fn)
                if b is None:
                    out.unk("ranges", what, "no function")
                    continue
                try:
                    eng, v, st = run(prog, BS + fn, {1: ("r", root, ()), 2: mk("comp")}, {root: blist(data)}, comparer(prog, recs, i, j))
                    if fn == "upper_bound_n":
                        got, want = num(deep(eng, st, v)), starts[i + j]
                        good = got == want
                    else:
                        got = pair(eng, st, v)
                        want = (starts[i], starts[i + 1 if fn == "lower_bound_n" else i + j]) if j else (starts[i], starts[i])
                        good = got == want
                    if good:
                        out.ok("ranges", what)
                    else:
                        out.bad("ranges", "%s:%s:%d,%d" % (fn, ",".join(map(str, ls)) + ("" if nl else "-"), i, j), where(b),
                                "%s in %s returns %s instead of %s" % (fn, show(recs, i, j), got, want))
                except Astray as e:
                    out.bad("ranges", "%s:%s:%d,%d" % (fn, ",".join(map(str, ls)) + ("" if nl else "-"), i, j), where(b),
                            "%s in %s %s" % (fn, show(recs, i, j), e))
                except Undecided as e:
                    out.unk("ranges", what, e)
    par(rep, list(files(tier)), one, chunk=8)


def x_text(eng, st, call):
    """Text constants: splitting, lengths, bytes, growing byte vectors."""
    p, nm = call.callee.fn or "", call.callee.name
    if p == "core::str::<impl str>::split":
        v, d = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
        if v[0] == "s" and d[0] == "c":
            return [(("it", "list", tuple(S(x) for x in v[1].split(chr(d[1]))), 0), st)]
    if p == "core::str::<impl str>::split_once":
        v, d = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
        if v[0] == "s" and d[0] == "c":
            a, sep, c = v[1].partition(chr(d[1]))
            return [(("e", OPT, 1, (("t", None, (S(a), S(c))),)) if sep else ("e", OPT, 0, ()), st)]
    if p in ("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with"):
        a, c = asbytes(eng, st, call.args[0]), asbytes(eng, st, call.args[1])
        return [(TRUE if (a.startswith(c) if nm == "starts_with" else a.endswith(c)) else FALSE, st)]
    if p == "core::slice::<impl [T]>::contains":
        return [(TRUE if asbytes(eng, st, call.args[0]).find(asbytes(eng, st, ("t", None, (deep(eng, st, call.args[1]),)))) >= 0 else FALSE, st)]
    if nm == "extend" and "Vec" in (call.callee.res or "") + (call.callee.target or ""):
        loc = eng.deref(call.args[0])
        if loc is None or loc[0][0] == "K":
            return None
        old = asbytes(eng, st, eng.read(st, loc[0], loc[1]))
        eng.write(st, loc[0], loc[1], blist(old + asbytes(eng, st, call.args[1])))
        return [(UNIT, st)]
    if p in ("alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes"):
        v = deep(eng, st, call.args[0])
        if v[0] == "s":
            return [(v, st)]
        return [(call.args[0], st)]
    return text_hook(eng, st, call)


def contexts(tier):
    return [None, "1", "2", "1.2,2.1", "0.1,3.0"] + (["9", "0,1", "1,0", "0.0,0.2"] if tier != "quick" else [])


def selected(recs, i, j, ctx):
    bm = bn = am = an = 0
    if ctx:
        two = lambda x: (int(x.split(".")[0]), int(x.split(".")[-1]))
        a = ctx.split(",")
        bm, bn = two(a[0])
        am, an = two(a[-1])
    b, a = (bm, am) if j else (bn, an)
    return recs[max(0, i - b):min(len(recs), i + j + a)]


def tool(prog, rep, tier):
    rep.rule("tool", "cdx binsearch of each file, with a header and without, for every place of the value sought and several contexts, writes the header once and then "
             "exactly the equal records with the asked for number of records before and after them, each ending in a newline (after the tail of the file name with "
             "--filename); the header is never compared, repeated or counted as a record")
    b = prog.bodies.get(TOOL)
    if b is None:
        return rep.unk("tool", "binsearch", "no tool")
    small = (0, 1, 4) if tier != "quick" else (0, 2)
    shapes = [(ls, nl) for ls, nl in files("quick") if len(ls) <= (3 if tier != "quick" else 2) and all(l in (0, 1, 4) for l in ls)
              or len(ls) == 3 and all(l in small for l in ls)] + [((1, 2, 1, 3, 2, 1), True), ((2, 1, 1, 1, 3), False)]
    jobs = [(h, ls, nl) for h in (False, True) for ls, nl in shapes]

    def one(job, rep):
        head, ls, nl = job
        recs = lines(ls, nl)
        h = b" CDX\tkey\n" if head else b""
        full = [r if r.endswith(b"\n") else r + b"\n" for r in recs]
        for i, j in orders(ls):
            if len(rep.violations) > 4 or len(rep.undecided) > 8:
                return      # enough is known about this file
            for ctx in contexts(tier):
                for named in (False, True):
                    if named and ctx not in (None, "1.2,2.1"):
                        continue
                    opts = [("pattern", "x")] + ([("context", ctx)] if ctx else []) + ([("filename", "file:1")] if named else [])
                    what = "binsearch %s %s%s" % (" ".join("--%s=%s" % o for o in opts), show(recs, i, j), " after a header" if head else "")
                    key = "%s:%s:%d,%d:%s" % ("H" if head else "-", ",".join(map(str, ls)) + ("" if nl else "-"), i, j, ctx)
                    try:
                        eng, v, st = run(prog, TOOL, {}, {}, tool_hook(prog, {"F0": h + b"".join(recs)}, opts, comparer(prog, recs, i, j)))
                        want = h if not named or not head else b" CDX\tfile\tkey\n"
                        want += b"".join((b"tail\t" if named else b"") + r for r in selected(full, i, j, ctx))
                        if v[0] != "e" or v[2] != 0:
                            rep.bad("tool", key, where(b), what + " fails", st.trace(10))
                        elif st.mon[1] != want:
                            rep.bad("tool", key, where(b), "%s writes %r instead of %r" % (what, st.mon[1].decode(), want.decode()), st.trace(10))
                        else:
                            rep.ok("tool", what)
                    except Astray as e:
                        rep.bad("tool", key, where(b), "%s %s" % (what, e))
                    except Undecided as e:
                        rep.unk("tool", what, e)
        rep.count("files searched")
    par(rep, jobs, one, chunk=4)


TOOL = "bin::binsearch_main::main"


def tool_hook(prog, contents, options, compare):
    adt = "bin::args::ArgValue"
    if adt not in prog.adts:
        raise Undecided("no type " + adt)
    fs = prog.adts[adt]["variants"][0]["fields"]

    def hook(eng, st, call):
        r = compare(eng, st, call)
        if r is not None:
            return r
        p, nm, tgt = call.callee.fn or "", call.callee.name, call.callee.target or ""
        if tgt == "bin::args::parse":
            args = []
            for i, (name, val) in enumerate(options):
                d = {"name": S(name), "value": S(val), "index": ("c", i)}
                args.append(("t", adt, tuple(d.get(f["name"], absint.TOP) for f in fs)))
            return [(OK(("t", None, (("t", None, tuple(args)), ("t", None, tuple(S(f) for f in contents))))), st)]
        if tgt.startswith("cdx::comp::LineCompList::"):
            if nm in ("new", "default"):
                return [(mk("comp"), st)]
            if nm == "is_empty":
                return [(FALSE if any(o[0] == "key" for o in options) else TRUE, st)]
            if nm in ("add", "set", "lookup"):
                return [(OK(UNIT), st)]
        if tgt == "cdx::util::get_writer":
            return [(OK(mk("writer")), st)]
        if p == "std::fs::File::open":
            v = deep(eng, st, call.args[0])
            if v[0] != "s" or v[1] not in contents:
                raise Undecided("file")
            return [(OK(S("file " + v[1])), st)]
        if p == "memmap2::Mmap::map" or p.startswith("memmap2::") and nm == "map":
            v = deep(eng, st, call.args[-1])
            if v[0] != "s":
                raise Undecided("mapped file")
            return [(OK(blist(contents[v[1][5:]])), st)]
        if nm in ("deref", "as_ref") and "memmap2::" in (call.callee.res or "") + tgt:
            return [(call.args[0], st)]
        if tgt == "cdx::util::HeaderChecker::check":
            return [(OK(TRUE if asbytes(eng, st, call.args[1]) else FALSE), st)]
        if tgt.startswith("cdx::util::StringLine::") and nm in ("split", "fake"):
            if nm == "fake":
                return [(UNIT, st)]
            loc = eng.deref(call.args[0])
            if loc is None or loc[0][0] == "K":
                return None
            names = [f["name"] for f in prog.adts["cdx::util::StringLine"]["variants"][0]["fields"]]
            if "parts" not in names:
                return None
            v, k = eng.read(st, loc[0], loc[1]), names.index("parts")
            if v[0] != "t" or len(v[2]) != len(names):
                raise Undecided("header")
            eng.write(st, loc[0], loc[1], v[:2] + (v[2][:k] + (("t", None, (mk("part0"), mk("part1"))),) + v[2][k + 1:],))
            return [(UNIT, st)]
        if nm == "names" and tgt.startswith(BS) or nm == "vec" and tgt.startswith("cdx::util::StringLine::"):
            return [(("t", None, (S("key"),)), st)]
        if nm == "count" and p.startswith("core::iter::"):
            return [(("c", 1), st)]
        if nm == "split" and p.startswith("core::slice::"):
            return [(mk("pieces"), st)]
        if nm == "from_utf8" and p.startswith("core::str::"):
            return [(OK(call.args[0]), st)]
        if nm == "to_string" and p.startswith("alloc::"):
            return [(deep(eng, st, call.args[0]), st)]
        if nm in ("deref", "deref_mut") and eng.nm(deep(eng, st, call.args[0])) == "writer":
            return [(call.args[0], st)]
        if nm == "write_all" and (p.startswith("core::io::") or p.startswith("std::io::") or p.startswith("alloc::io::")):
            st.mon = (st.mon[0], st.mon[1] + asbytes(eng, st, call.args[1]))
            return [(OK(UNIT), st)]
        if nm == "flush":
            return [(OK(UNIT), st)]
        if nm in ("to_usize_whole",):
            v = deep(eng, st, call.args[0])
            if v[0] == "s" and v[1].isdigit():
                return [(OK(("c", int(v[1]))), st)]
        if nm == "tail_path_u8":
            return [(S("tail"), st)]
        return x_text(eng, st, call)
    return hook


RULES = [ranges, tool]
