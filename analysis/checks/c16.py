"""C16: escaped text output reads back unchanged."""
import itertools
import re
from .. import absint
from ..absint import Undecided, UNIT, TRUE, FALSE
from ..models import RES, aslist
from .common import where, par, outcomes, enumval, adt_ty, impls
from . import c18

TM = "cdx::util::TextFileMode"
QM = "cdx::util::QuoteMode"
TL = "cdx::util::TextLine"
NL = 10
OK = lambda v: ("e", RES, 0, (v,))


def reach(prog, roots):
    """Functions of the crate reached by calls from the roots."""
    seen, todo = set(), list(roots)
    while todo:
        p = todo.pop()
        if p in seen or p not in prog.bodies:
            continue
        seen.add(p)
        for bb in prog.bodies[p].bbs:
            f = bb["t"].get("f") if bb["t"].get("k") == "call" else None
            if isinstance(f, dict):
                todo += [f[x] for x in ("res", "fn") if f.get(x)]
    return seen


def classes(prog, paths):
    """Byte values a function tells apart: byte constants and byte switches. Any other byte is treated like any other."""
    out = set()
    u8 = lambda t: t is not None and prog.types[t]["s"] == "u8"

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "const" and isinstance(x.get("v"), int) and u8(x.get("ty")):
                out.add(x["v"])
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)
    for p in paths:
        b = prog.bodies[p]
        for bb in b.bbs:
            walk(bb)
            t = bb["t"]
            if t.get("k") == "switch" and t["d"].get("p") and not t["d"]["p"][1] and u8(b.locals[t["d"]["p"][0]]):
                out |= {v for v, _ in t["ts"]}
    return {x for x in out if x not in (0, 1)}


class Codec:
    """The writer and the reader of one text format, interpreted on columns."""

    def __init__(self, prog, mode, delim):
        self.p = prog
        self.delim = delim
        self.ty = adt_ty(prog, TM)
        fs = prog.adts[TM]["variants"][0]["fields"]
        known = {"col_mode": enumval(prog, QM, mode), "delim": ("c", delim), "line_break": ("c", NL), "repl": ("c", 32)}
        if not set(known) <= {f["name"] for f in fs}:
            raise Undecided("fields of " + TM)
        self.me = ("m", "format", self.ty, tuple((("f", j), known[f["name"]]) for j, f in enumerate(fs) if f["name"] in known))
        self.root = ("O", "format", self.ty)
        self.cache = {}

    def data(self, eng, st, v):
        x = aslist(eng, st, eng.pointee(st, v)) if v[0] in ("r", "kp") else aslist(eng, st, v)
        if x is None or any(e[0] != "c" for e in x):
            raise Undecided("bytes that are not followed")
        return bytes(e[1] for e in x)

    def run(self, path, args, store, hook, init):
        b = self.p.bodies.get(path)
        if b is None:
            raise Undecided("no function " + path)
        old, absint.CAP = absint.CAP, 1000
        try:
            m = outcomes(self.p, path, args=args, store=store, hook=hook, init=init, lists=True, head_k=200, join_k=10**6, steps=20000)
        finally:
            absint.CAP = old
        if len(m.outs) != 1:
            raise Undecided("%d outcomes of %s" % (len(m.outs), path))
        return m.eng, m.outs[0][0], m.outs[0][1]

    def write(self, col):
        if col in self.cache:
            return self.cache[col]

        def hook(eng, st, call):
            if call.callee.name == "write_all":
                st.mon = st.mon + self.data(eng, st, call.args[1])
                return [(OK(UNIT), st)]
        b = self.p.bodies.get(TM + "::write")
        if b is None:
            raise Undecided("no writer")
        root = ("O", "column", None)
        eng, v, st = self.run(b.path, {1: ("r", self.root, ()), 3: ("r", root, ())},
                              {self.root: self.me, root: ("t", None, tuple(("c", x) for x in col))}, hook, b"")
        if v[0] != "e" or v[2] != 0:
            raise Undecided("writer fails")
        self.cache[col] = st.mon
        return st.mon

    def read(self, text):
        """Records (lists of columns) a reader gets from the text, in the order of the text."""
        def hook(eng, st, call):
            if call.callee.name == "read_until":
                stop = call.args[1]
                loc = eng.deref(call.args[2])
                if stop[0] != "c" or loc is None:
                    raise Undecided("read_until")
                rest = st.mon
                k = rest.find(bytes([stop[1]]))
                got, st.mon = (rest, b"") if k < 0 else (rest[:k + 1], rest[k + 1:])
                old = aslist(eng, st, eng.read(st, loc[0], loc[1]))
                if old is None:
                    raise Undecided("line that is not followed")
                eng.write(st, loc[0], loc[1], ("t", None, old + tuple(("c", x) for x in got)))
                return [(OK(("c", len(got))), st)]
        lt = adt_ty(self.p, TL)
        fs = {f["name"]: j for j, f in enumerate(self.p.adts[TL]["variants"][0]["fields"])}
        out = []
        for _ in range(4):
            root = ("O", "line", None)
            eng, v, st = self.run(TM + "::read_line", {1: ("r", self.root, ()), 3: ("r", root, ())},
                                  {self.root: self.me, root: ("t", None, ())}, hook, text)
            if v == OK(TRUE):
                return out
            if v != OK(FALSE):
                raise Undecided("read_line")
            line, text = eng.read(st, root, ()), st.mon
            root = ("O", "rec", lt)
            empty = ("t", None, ())
            rec = ("m", "rec", lt, tuple((("f", fs[n]), x) for n, x in (("line", line), ("parts", empty), ("orig", empty))))
            eng, v, st = self.run(TM + "::split", {1: ("r", self.root, ()), 2: ("r", root, ())}, {self.root: self.me, root: rec}, None, ())
            line = self.data(eng, st, eng.read(st, root, ((("f", fs["line"]), None, "line"),)))
            parts = aslist(eng, st, eng.read(st, root, ((("f", fs["parts"]), None, "parts"),)))
            if parts is None:
                raise Undecided("columns that are not followed")
            cols = []
            for x in parts:
                if x[0] != "t" or len(x[2]) != 2 or any(e[0] != "c" for e in x[2]):
                    raise Undecided("column %s" % (x,))
                cols.append(line[x[2][0][1]:x[2][1][1]])
            out.append(cols)
        return out


def quoted(b):
    return repr(b)[1:]


def roundtrip(prog, rep, tier):
    """The writer and the reader (lines and columns) of each escaping format are interpreted on columns built from the
    byte classes the code tells apart (the delimiter, the line break, every byte constant of either side, and any other
    byte): the columns read are the columns written, alone, next to another column, and with a record after it."""
    js = []
    for mode in ("Backslash", "Quote"):
        for delim in (9, 44, 13, 32):
            js.append((mode, delim))
    par(rep, js, lambda j, r: codec(prog, r, tier, *j))


def codec(prog, rep, tier, mode, delim):
    what = "%s, delimiter %s" % (mode, quoted(bytes([delim])))
    try:
        c = Codec(prog, mode, delim)
        w = reach(prog, [TM + "::write"])
        r = reach(prog, [TM + "::split", TM + "::read_line"])
        al = classes(prog, w | r) | {delim, NL}
        other = next(x for x in range(65, 255) if x not in al)
        al = sorted(al | {other})
        if len(al) > 24:
            raise Undecided("too many byte classes")
        n = 0
        top = 4 if tier == "thorough" else 3
        one = [bytes(x) for k in range(2) for x in itertools.product(al, repeat=k)]
        two = [bytes(x) for k in range(top) for x in itertools.product(al, repeat=k)]
        special = [x for x in al if x in (delim, NL, 34, 92, other)]
        deep = [bytes(x) for k in range(top, top + 2) for x in itertools.product(special, repeat=k)]
        cases = [[x] for x in two + deep] + [[x, bytes([other])] for x in two + deep] + [[x, y] for x in one for y in one] + [[bytes([other]), x, b""] for x in one]
        for cols in cases:
            text = bytes([delim]).join(c.write(x) for x in cols) + b"\n"
            tail = bytes([other]) + b"\n"
            got = c.read(text + tail)
            n += 1
            if got != [cols, [bytes([other])]]:
                b = prog.bodies[TM + "::write"]
                rep.bad("roundtrip", what, where(b), "format %s: the columns %s are written as %s and read back as %s" % (
                    what, ", ".join(map(quoted, cols)), quoted(text), "; ".join(", ".join(map(quoted, x)) for x in got)), ["written by " + ", ".join(sorted(w)), "read by " + ", ".join(sorted(r))])
                return
        rep.ok("roundtrip", "%s: %d records over %d byte classes" % (what, n, len(al)))
        rep.count("records", n)
    except Undecided as e:
        rep.unk("roundtrip", what, e)


def through(prog, rep, tier):
    """Column rules are given the output format; column contents (of the record, literals, aggregated values) go out
    through the writer of the format, never directly. The whole record may be copied as it was read."""
    for t, p in impls(prog, c18.CF, "write"):
        try:
            fields = {"columns": c18.nested(prog, t, "columns", c18.selection(prog, 2))} if t in c18.SETS else c18.parts(prog, t)
            w = c18.lib(prog, p, fields, {c18.CS + "::" + x for x in ("write3", "write3s", "write2", "fetch", "get_cols")})
            text = {f["name"] for f in prog.adts[t]["variants"][0]["fields"] if prog.types[f["ty"]]["s"] in ("alloc::string::String", "alloc::vec::Vec<u8>")}
            agg = any(bb["t"].get("k") == "call" and str((bb["t"].get("f") or {}).get("fn")).endswith("Agg::result") for bb in prog.bodies[p].bbs)
            bad = None
            for v, st in w.exits:
                for e in st.mon[1]:
                    if e[0] != "w":
                        continue
                    for k, x in (e[2] if not isinstance(e[2], str) else (("x", e[2]),)):
                        rep.count("pieces of output")
                        if k != "x" or x == "text":
                            continue
                        if x.startswith("result(") or x.startswith("<h") and agg:
                            bad = bad or ("an aggregated value", st)
                        elif "rec:F0:1" in x and "line(rec:F0:1)" not in x and "len(" not in x:
                            bad = bad or ("a column of the record", st)
                        elif any(re.match(r"self\.%s\b" % n, x) for n in text):
                            bad = bad or ("text of the rule", st)
            if bad:
                rep.bad("through", t, where(prog.bodies[p]), "%s writes %s without the escaping of the output format" % (p, bad[0]), bad[1].trace(8))
            elif w.exits:
                rep.ok("through", t)
        except Undecided as e:
            rep.unk("through", t, e)


RULES = [roundtrip, through]
