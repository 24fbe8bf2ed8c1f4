"""Abstract world for the command line tools and the record-processing library routines.

A Monitor for the MIR abstract interpreter in which input files, records, outputs and rule objects are abstract
objects.  The interface of cdx::util::Reader and std's Write trait is summarised (transfer functions below); everything
that touches neither is an uninterpreted rule.  A file has one of a few shapes (empty, header only, n records); all
answers of uninterpreted rules are explored.  st.mon is the monitor state:

  (readers, events, lookups, filled, outs, fault)
   readers : ((id, file, n, pos, split), ...)
   events  : log of what happened, in order
   lookups : frozenset of (rule, names, slot)
   filled  : ((rule, number of pushes), ...)
   outs    : ((writer, dirty), ...)
   fault   : None or the operation that was made to fail
"""
import re
from .absint import Engine, Monitor, Undecided, TOP, TRUE, FALSE, UNIT, deepval, is_m
from .models import RES, OPT, ORD, MODELS, mk_iter
from . import absint

RD = "cdx::util::Reader::"
TL = "cdx::util::TextLine::"
REC = re.compile(r"rec:(\w+):(\d+)")
NAMES = re.compile(r"names:(\w+)")
WR = re.compile(r"W:[^.\s,)]*")
WRITE = "core::io::write::Write"

INIT = ((), (), frozenset(), (), (), None)


def ok(v):
    return ("e", RES, 0, (v,))


def err(tag):
    return ("e", RES, 1, (("m", "err:" + tag, None, ()),))


def some(v):
    return ("e", OPT, 1, (v,))


NONE = ("e", OPT, 0, ())


class World(Monitor):
    """shapes: {file: [n, ...]} with n = -1 empty, 0 header only, k records.
    answers(world, st, q) may fix the answer of a rule query: returns list of values or None.
    faults: explore failure of every fallible operation (at most one per path)."""

    def __init__(self, prog, files=("F0",), shapes=(-1, 0, 1, 2), options=(), faults=False, answers=None, opaque=(),
                 inline=()):
        self.p = prog
        self.files = files
        self.shapes = shapes
        self.options = options
        self.faults = faults
        self.answers = answers
        self.opaque_fns = set(opaque)
        self.inline_fns = set(inline)
        self.ncols = 2
        self.colsof = {}
        self.init = INIT
        self.exits = []
        self.div = []
        self.unknown = set()
        self.rel_cache = {}
        self.recv_adt = {}
        self._reach = None

    # ------------------------------------------------------------------ what to look into
    def reaches_reader(self):
        """Functions that (by resolved calls only) use a Reader."""
        c = getattr(self.p, "_reader_reach", None)
        if c is None:
            calls = {}
            for b in self.p.bodies.values():
                s = calls[b.path] = set()
                for i, t in b.calls():
                    k = self.p.callee(t)
                    if k and k.res:
                        s.add(k.res)
            c = {f for f, s in calls.items() if any(x.startswith(RD) for x in s)}
            while True:
                n = {f for f, s in calls.items() if f not in c and s & c}
                if not n:
                    break
                c |= n
            self.p._reader_reach = c
        return c

    def relevant(self, path):
        r = self.rel_cache.get(path)
        if r is None:
            r = self.rel_cache[path] = self._relevant(path)
        return r

    def _relevant(self, path):
        if path in self.opaque_fns:
            return False
        if path in self.inline_fns:
            return True
        if "{closure" in path:
            base = path.split("::{closure")[0]
            return base not in self.p.bodies or self._relevant(base) or True
        if path.startswith("bin::") or path.startswith("<bin::"):
            return True
        if path.startswith(RD) or path.startswith("<cdx::util::Reader"):
            return False
        if re.match(r"<?cdx::(sort|join|transpose)::", path):
            return True
        if path in ("<cdx::util::Outfile as core::ops::deref::DerefMut>::deref_mut",
                    "<cdx::util::Outfile as core::ops::deref::Deref>::deref",
                    "<cdx::util::Infile as core::ops::deref::DerefMut>::deref_mut",
                    "<cdx::util::Infile as core::ops::deref::Deref>::deref"):
            return True
        return path in self.reaches_reader()

    # ------------------------------------------------------------------ state helpers
    @staticmethod
    def log(st, ev):
        m = st.mon
        es = m[1] + (ev,)
        for k in (1, 2, 3, 4, 5, 6):
            if len(es) >= 3 * k and es[-k:] == es[-2 * k:-k] == es[-3 * k:-2 * k]:
                es = es[:-k]        # a third repetition adds nothing
                break
        st.mon = (m[0], es) + m[2:]
        st.note("event %s" % (ev,))

    @staticmethod
    def reader(st, rid):
        for r in st.mon[0]:
            if r[0] == rid:
                return r
        return None

    @staticmethod
    def set_reader(st, r):
        m = st.mon
        rs = tuple(sorted([x for x in m[0] if x[0] != r[0]] + [r]))
        st.mon = (rs,) + m[1:]

    @staticmethod
    def set_out(st, w, dirty):
        m = st.mon
        os = tuple(sorted([x for x in m[4] if x[0] != w] + [(w, dirty)]))
        st.mon = m[:4] + (os,) + m[5:]

    @staticmethod
    def set_fault(st, what):
        m = st.mon
        st.mon = m[:5] + (what,)

    def fallible(self, eng, st, what, val):
        """Outcomes of a fallible operation succeeding with val."""
        out = [(ok(val), st)]
        if self.faults and st.mon[5] is None:
            n = st.copy()
            self.set_fault(n, what)
            n.note("fails: " + what)
            out.append((err(what), n))
        return out

    def ty(self, adt):
        c = getattr(self.p, "_adtty", None)
        if c is None:
            c = self.p._adtty = {}
            for i, t in enumerate(self.p.types):
                if t["k"] == "adt":
                    c.setdefault(t["d"], i)
        return c.get(adt)

    def rd_id(self, eng, st, v):
        w = deepval(eng, st, v)
        if w[0] == "m" and w[1].startswith("R:"):
            return w[1].split(".")[0].split("*")[0]
        return None

    def rec(self, r, back=0):
        p = r[3] - back
        if p < 1 or p > r[2]:
            return "norec:%s" % r[1]
        return "rec:%s:%d" % (r[1], p)

    def col(self, rec, i):
        return ("r", ("O", "col(%s,%s)" % (rec, i), None), ())

    def robj(self, name):
        return ("r", ("O", name, self.ty("cdx::util::TextLine")), ())

    # ------------------------------------------------------------------ calls
    def on_call(self, eng, st, call):
        c = call.callee
        if c is None:
            return None
        fn = c.res or c.fn
        f0 = c.fn
        t = call.term
        if t["t"] is None and not fn.startswith("cdx::") and not fn.startswith("bin::"):
            return None
        if f0.startswith(RD) or fn.startswith(RD):
            return self.reader_call(eng, st, call, c.name)
        if fn.startswith(TL) or "cdx::util::TextLine as" in fn or f0.startswith(TL):
            return self.line_call(eng, st, call, c.name)
        if fn == "bin::args::parse":
            return self.parse(eng, st, call)
        if fn == "cdx::util::get_writer":
            n = deepval(eng, st, call.args[0])
            nm = n[1] if n[0] == "s" else (eng.nm(n) or "?")
            w = "W:" + re.sub(r"[.\s,()*]", "_", nm)
            k = [x for x in st.mon[4] if x[0] == w]
            if k:
                w = w + "'"
            out = self.fallible(eng, st, "get_writer", ("m", w, self.ty("cdx::util::Outfile"), ()))
            self.set_out(out[0][1], w, 0)
            self.log(out[0][1], ("create", w))
            return out
        if fn == "cdx::util::get_reader":
            return self.raw_open(eng, st, call)
        if fn == "cdx::util::cdx_err":
            v = call.args[0]
            nm = "?"
            if v[0] == "e":
                nm = self.p.adts[v[1]]["variants"][v[2]]["name"]
            return [(err("cdx:" + nm), st)]
        if fn == "cdx::util::copy":
            src = self.mention(eng, st, call.args[0])
            m = re.search(r"I:(\w+)", src)
            w = WR.search(self.mention(eng, st, call.args[1]))
            if m and w:
                self.log(st, ("w", w.group(), "all:" + m.group(1)))
                self.set_out(st, w.group(), 1)
                self.raw_done(st, m.group(1))
                return self.fallible(eng, st, "copy", UNIT)
        if c.trait == WRITE or f0.startswith(WRITE + "::"):
            return self.write_call(eng, st, call, c.name)
        if c.name in ("read_until", "read", "read_line", "read_to_end") and "I:" in self.mention(eng, st, call.args[0]):
            return self.raw_read(eng, st, call, c.name)
        m = XMODELS.get(f0) or XMODELS.get(fn)
        if m is None:
            for suf, mm in XSUFFIX:
                if f0.endswith(suf):
                    m = mm
                    break
        if m is not None:
            r = m(self, eng, st, call)
            if r is not None:
                return r
        local = fn.startswith("cdx::") or fn.startswith("<cdx::") or (f0.startswith("cdx::"))
        if local and not (fn in self.p.bodies and self.relevant(fn)):
            if f0 in MODELS or fn in MODELS:
                dty = eng.placetype(call.body, call.term["d"])
                adt = self.p.adt_of(dty) if dty is not None else None
                if c.name not in ("clone", "default", "from", "into"):
                    return None
                if c.name == "clone" or c.name == "into":
                    return None
            return self.rule_call(eng, st, call)
        if fn.startswith("core::fmt") or fn.startswith("alloc::fmt") or "anyhow" in fn:
            return None
        # other calls that are given the current record
        return None

    def mention(self, eng, st, v, d=0):
        """Text naming everything a value leads to (for finding records, writers and names in it)."""
        if d > 6:
            return ""
        if v[0] in ("r", "kp"):
            loc = eng.deref(v)
            w = eng.read(st, loc[0], loc[1]) if loc else TOP
            return (eng.locname(*loc) if loc and loc[0][0] == "O" else "") + " " + self.mention(eng, st, w, d + 1)
        if v[0] == "m":
            s = v[1]
            if v[2] is not None and self.p.types[v[2]]["k"] == "ref" and not v[3]:
                loc = eng.deref(v)
                if loc and loc[0] in st.store:
                    s += " " + self.mention(eng, st, eng.read(st, loc[0], loc[1]), d + 1)
            for k, x in v[3]:
                s += " " + self.mention(eng, st, x, d + 1)
            return s
        if v[0] in ("t", "cl"):
            return " ".join(self.mention(eng, st, x, d + 1) for x in v[2])
        if v[0] == "e":
            return " ".join(self.mention(eng, st, x, d + 1) for x in v[3])
        if v[0] == "s":
            return "'%s'" % v[1]
        if v[0] == "b":
            return repr(v[1])
        if v[0] == "c":
            return str(v[1])
        if v[0] == "it" and v[1] == "list":
            return " ".join(self.mention(eng, st, x, d + 1) for x in v[2])
        return "?"

    # ------------------------------------------------------------------ command line
    def parse(self, eng, st, call):
        adt = "bin::args::ArgValue"
        fs = self.p.adts[adt]["variants"][0]["fields"]
        strty = next((f["ty"] for f in fs if f["name"] == "name"), None) if "ty" in fs[0] else None
        args = []
        for i, (name, val) in enumerate(self.options):
            d = {"name": ("s", name), "value": ("s", val) if val is not None else ("m", "V:%s" % name, strty, ()),
                 "index": ("c", i)}
            args.append(("t", adt, tuple(d.get(f["name"], TOP) for f in fs)))
        files = tuple(("s", f) for f in self.files)
        return self.fallible(eng, st, "args::parse", ("t", None, (("t", None, tuple(args)), ("t", None, files))))

    # ------------------------------------------------------------------ Reader
    def fname(self, eng, st, v):
        w = deepval(eng, st, v)
        if w[0] == "s":
            return w[1]
        raise Undecided("file name %s" % (eng.nm(w),))

    def open_file(self, eng, st, name, what):
        """[(reader value|None, state)] for opening a file."""
        out = []
        k = sum(1 for r in st.mon[0] if r[1] == name)
        rid = "R:" + name + "'" * k
        for n in self.shapes:
            s = st.copy()
            self.set_reader(s, (rid, name, n, 1, 1))
            self.log(s, ("open", name, n))
            out.append((("m", rid, self.ty("cdx::util::Reader"), ()), s))
        if self.faults and st.mon[5] is None:
            s = st.copy()
            self.set_fault(s, what + " " + name)
            out.append((None, s))
        return out

    def reader_call(self, eng, st, call, name):
        a = call.args
        rty = self.ty("cdx::util::Reader")
        if name in ("new", "new_with", "default"):
            return [(("m", "R:?", rty, ()), st)]
        if name in ("new_open", "new_open2", "new_open_with"):
            f = self.fname(eng, st, a[0])
            return [(ok(v) if v else err("open"), s) for v, s in self.open_file(eng, st, f, "open")]
        if name == "open":
            f = self.fname(eng, st, a[1])
            loc = eng.deref(a[0])
            out = []
            for v, s in self.open_file(eng, st, f, "open"):
                if v is None:
                    out.append((err("open"), s))
                else:
                    eng.write(s, loc[0], loc[1], v)
                    out.append((ok(UNIT), s))
            return out
        rid = self.rd_id(eng, st, a[0])
        r = self.reader(st, rid) if rid else None
        if r is None:
            if name == "do_split":
                return [(UNIT, st)]
            raise Undecided("reader %s in %s" % (eng.nm(deepval(eng, st, a[0])), call.where()))
        rid, f, n, pos, split = r
        bt = eng.booltype()
        dty = eng.placetype(call.body, call.term["d"])
        if name == "getline":
            if pos <= n:
                self.log(st, ("pass", f, pos))
            s = st
            out = []
            np = min(pos + 1, n + 1) if n >= 0 else 1
            if self.faults and st.mon[5] is None and n >= 0 and pos <= n:
                e = st.copy()
                self.set_fault(e, "getline " + f)
                out.append((err("getline"), e))
            self.set_reader(s, (rid, f, n, max(np, 1), split))
            if np <= n and n >= 0 and split == 0:
                self.log(s, ("unsplit", f, np))
            out.append((ok(TRUE if np > n else FALSE), s))
            return out
        if name == "is_done":
            return [(TRUE if pos > n else FALSE, st)]
        if name == "is_empty":
            return [(TRUE if n < 0 else FALSE, st)]
        if name == "has_header":
            if n == 0:
                return [(TRUE, st)]
            if n < 0:
                return [(FALSE, st)]
            return [(eng.norm(st, ("m", "hdr:" + f, bt, ())), st)]
        if name == "names":
            return [(("t", None, tuple(("m", "names:%s[%d]" % (f, i), None, ()) for i in range(self.colsof.get(f, self.ncols)))), st)]
        if name in ("header", "header_line"):
            return [(("r", ("O", "%s:%s" % (name, f), None), ()), st)]
        if name in ("curr", "curr_line", "curr_mut"):
            return [(self.robj(self.rec(r)), st)]
        if name == "prev_line":
            b = a[1][1] if a[1][0] == "c" else None
            if b is None:
                raise Undecided("lookback")
            return [(self.robj(self.rec(r, b)), st)]
        if name == "curr_nl":
            return [(("r", ("O", "nl(%s)" % self.rec(r), None), ()), st)]
        if name == "prev_nl":
            b = a[1][1] if a[1][0] == "c" else 1
            return [(("r", ("O", "nl(%s)" % self.rec(r, b), None), ()), st)]
        if name == "line_number":
            return [(("c", pos), st)]
        if name == "loc":
            return [(("r", ("O", "loc:%s:%d" % (f, pos), None), ()), st)]
        if name == "delim":
            return [(("m", "delim:" + f, dty, ()), st)]
        if name == "do_split":
            v = eng.norm(st, a[1])
            out = []
            for b, s in eng.fork_bool(st, v):
                self.set_reader(s, (rid, f, n, pos, b))
                self.log(s, ("split", f, b))
                out.append((UNIT, s))
            return out
        if name in ("write", "write_curr", "write_prev", "write_header"):
            w = WR.search(self.mention(eng, st, a[1]))
            if w is None:
                raise Undecided("writer in " + call.where())
            b = a[2][1] if name == "write_prev" and a[2][0] == "c" else 0
            what = "header:" + f if name == "write_header" else "line(%s)" % self.rec(r, b)
            self.log(st, ("w", w.group(), what))
            self.set_out(st, w.group(), 1)
            return self.fallible(eng, st, "write", UNIT)
        raise Undecided("Reader::%s" % name)

    # ------------------------------------------------------------------ TextLine
    def line_call(self, eng, st, call, name):
        a = call.args
        dty = eng.placetype(call.body, call.term["d"])
        if name in ("new", "default"):
            return [(("m", "norec:new", self.ty("cdx::util::TextLine"), ()), st)]
        v = deepval(eng, st, a[0])
        if v[0] != "m":
            if v is TOP:
                return None
            raise Undecided("text line %s" % (v[0],))
        n = v[1]
        if name == "clone":
            return [(v, st)]
        if name in ("assign", "clone_from"):
            loc = eng.deref(a[0])
            eng.write(st, loc[0], loc[1], deepval(eng, st, a[1]))
            return [(UNIT, st)]
        if name == "clear":
            loc = eng.deref(a[0])
            eng.write(st, loc[0], loc[1], ("m", "norec:clear", self.ty("cdx::util::TextLine"), ()))
            return [(UNIT, st)]
        if name in ("line", "line_nl", "raw"):
            return [(("r", ("O", "%s(%s)" % ("line" if name != "line_nl" else "nl", n), None), ()), st)]
        if name in ("get", "index"):
            self.usecol(st, n, "get")
            return [(self.col(n, eng.nm(a[1]) or "?"), st)]
        if name in ("len", "strlen"):
            if name == "len":
                self.usecol(st, n, name)
            self.log(st, ("act", "len", "", n))
            return [(eng.norm(st, ("m", "%s(%s)" % (name, n), dty, ())), st)]
        if name == "is_empty":
            return [(eng.norm(st, ("m", "is_empty(%s)" % n, dty, ())), st)]
        if name in ("iter", "into_iter", "vec"):
            self.usecol(st, n, name)
            self.log(st, ("act", name, "", n))
            m = REC.search(n)
            k = self.colsof.get(m.group(1), self.ncols) if m else self.ncols
            return [(("it", "list", tuple(self.col(n, i) for i in range(k)), 0), st)]
        raise Undecided("TextLine::" + name)

    def usecol(self, st, n, how):
        """Note the use of columns of a record that was read with splitting turned off."""
        m = REC.search(n)
        if m and ("unsplit", m.group(1), int(m.group(2))) in st.mon[1]:
            self.log(st, ("usecol", how, "", m.group()))

    # ------------------------------------------------------------------ raw input
    def raw_open(self, eng, st, call):
        f = self.fname(eng, st, call.args[0])
        out = []
        for n in self.shapes:
            s = st.copy()
            self.set_reader(s, ("I:" + f, f, n, 1, 1))
            self.log(s, ("open", f, n))
            out.append((ok(("m", "I:" + f, self.ty("cdx::util::Infile"), ())), s))
        if self.faults and st.mon[5] is None:
            s = st.copy()
            self.set_fault(s, "open " + f)
            out.append((err("open"), s))
        return out

    def raw_done(self, st, f):
        r = self.reader(st, "I:" + f)
        if r:
            for i in range(r[3], r[2] + 1):
                self.log(st, ("act", "copy", "", "rec:%s:%d" % (f, i)))
            self.set_reader(st, r[:3] + (r[2] + 1,) + r[4:])

    def raw_read(self, eng, st, call, name):
        m = re.search(r"I:(\w+)", self.mention(eng, st, call.args[0]))
        r = self.reader(st, "I:" + m.group(1))
        if r is None:
            return None
        rid, f, n, pos, split = r
        out = []
        if self.faults and st.mon[5] is None:
            e = st.copy()
            self.set_fault(e, name + " " + f)
            out.append((err(name), e))
        buf = call.args[-1]
        loc = eng.deref(buf)
        if pos > max(n, 0) + (1 if n == 0 else 0):
            out.append((ok(("c", 0)), st))
            return out
        nm = "rec:%s:%d" % (f, pos)
        self.log(st, ("pass", f, pos))
        self.set_reader(st, (rid, f, n, pos + 1, split))
        if loc is not None and loc[0][0] != "K":
            proj = loc[1]
            while proj and proj[-1][0][0] in ("ix", "ss"):
                proj = proj[:-1]
            eng.write(st, loc[0], proj, ("m", "buf(%s)" % nm, None, ()))
        sz = ("m", "size(%s)" % nm, eng.usize(), ())
        st.asm[eng.pred(st, "Eq", sz, ("c", 0))[1]] = ("c", 0)
        out.append((ok(sz), st))
        return out

    # ------------------------------------------------------------------ Write
    def write_call(self, eng, st, call, name):
        w = WR.search(self.mention(eng, st, call.args[0]))
        if w is None:
            if name == "flush":
                return [(ok(UNIT), st)]
            return None
        w = w.group()
        if name == "flush":
            out = self.fallible(eng, st, "flush", UNIT)
            self.set_out(out[0][1], w, 0)
            self.log(out[0][1], ("flush", w))
            return out
        if name in ("write_all", "write_fmt", "write"):
            self.log(st, ("w", w, " ".join(self.mention(eng, st, call.args[1]).split())))
            self.set_out(st, w, 1)
            return self.fallible(eng, st, "write", UNIT)
        if name == "by_ref":
            return [(call.args[0], st)]
        raise Undecided("Write::" + name)

    # ------------------------------------------------------------------ rules
    def ident(self, eng, st, v):
        """Identity of a rule object."""
        w = deepval(eng, st, v)
        return w[1] if w[0] == "m" else None

    def rule_call(self, eng, st, call):
        c = call.callee
        fn = c.res or c.fn
        dty = eng.placetype(call.body, call.term["d"])
        kt = self.p.types[dty] if dty is not None else None
        ms = [self.mention(eng, st, a) for a in call.args]
        recs = tuple("rec:%s:%s" % x for m in ms for x in REC.findall(m))
        files = tuple(dict.fromkeys(f for m in ms for f in self.files if "'%s'" % f in m))
        meth = bool(call.argtys) and call.argtys[0] is not None and self.adt_behind(call.argtys[0]) is not None
        recv = self.ident(eng, st, call.args[0]) if meth else None
        if recv:
            self.recv_adt[recv] = self.adt_behind(call.argtys[0])
        w = None
        for m in ms:
            x = WR.search(m)
            if x:
                w = x.group()
        nm = c.name
        if nm.startswith("lookup") and recv:
            names = [x for m in ms for x in NAMES.findall(m)]
            slot = call.args[2] if len(call.args) > 2 else None
            s = slot[1] if slot is not None and slot[0] == "c" else None
            out = self.fallible(eng, st, "lookup", UNIT)
            n = out[0][1]
            mon = n.mon
            for x in names:
                mon = mon[:2] + (mon[2] | {(recv, x, s)},) + mon[3:]
            n.mon = mon
            self.log(n, ("lookup", recv, tuple(names), s))
            return out
        filled = dict(st.mon[3])
        if recv and nm == "need_split" and kt is not None and kt["k"] == "bool":
            old = [e[2] for e in st.mon[1] if e[0] == "need_split" and e[1] == recv]
            out = []
            for b in (0, 1):
                if not old or old[-1] == b:
                    s = st.copy()
                    if not old:
                        self.log(s, ("need_split", recv, b))
                    out.append((TRUE if b else FALSE, s))
            return out
        if recs and any(e[0] == "unsplit" for e in st.mon[1]):
            for i, t in enumerate(call.argtys):
                if t is not None and self.adt_behind(t) in ("cdx::util::TextLine", "cdx::util::Reader"):
                    for m in REC.finditer(ms[i]):
                        if ("unsplit", m.group(1), int(m.group(2))) in st.mon[1]:
                            self.log(st, ("usecol", fn if not c.virt else c.virt, recv or "", m.group()))
                            break
        if recv and nm == "get_cols" and self.recv_adt[recv] == "cdx::column::ColumnSet" and kt is not None and kt["k"] == "ref":
            # one selected column, named after the file its set was resolved for
            at = "?"
            for e in st.mon[1]:
                if e[0] == "lookup" and e[1] == recv:
                    at = e[2][0] if e[2] else "?"
            vt = kt["a"][0]
            root = ("O", "cols(%s@%s)" % (recv, at), vt)
            st.store[root] = ("t", None, (("m", "col(%s@%s)" % (recv, at), self.p.types[vt]["a"][0], ()),))
            return [(("r", root, ()), st)]
        if recv and nm == "is_empty" and not recs and kt["k"] == "bool":
            return [(FALSE if recv in filled else TRUE, st)]
        if recv and nm == "len" and not recs and recv.startswith("<"):
            return [(("c", filled.get(recv, 0)), st)]
        if nm == "len" and self.adt_behind(call.argtys[0]) == "cdx::util::StringLine":
            return [(("c", self.ncols), st)]
        if recv and (nm.startswith("push") or nm in ("add", "add_yes", "add_no")) and not recs:
            tyname = ""
            for a in call.args[1:]:
                if a[0] == "r" and a[1][0] == "O" and a[1][2] is not None:
                    tyname = self.p.types[a[1][2]]["s"]
            n = st
            out = self.fallible(eng, n, nm, UNIT) if kt and kt.get("d") == RES else [(UNIT, n)]
            n = out[0][1]
            mon = n.mon
            cnt = dict(mon[3])
            cnt[recv] = min(cnt.get(recv, 0) + 1, 3)
            n.mon = mon[:3] + (tuple(sorted(cnt.items())),) + mon[4:]
            self.log(n, ("push", recv, nm, tyname))
            return out
        if recv and nm == "reset":
            self.log(st, ("reset", recv))
        if recs or files:
            self.log(st, ("act", nm, recv or fn, " ".join(recs + files)))
        if w:
            self.log(st, ("w", w, "%s(%s)[%s]" % (nm, recv or "", " ".join(recs))))
            self.set_out(st, w, 1)
        # result
        if recs and kt is not None:
            q = "q:%s(%s|%s)" % (nm, recv or "", ",".join(" ".join(m.split()) for m in (ms[1:] if recv else ms)))
            inner, wrap = dty, False
            if kt.get("d") == RES:
                inner, wrap = kt["a"][0], True
            it = self.p.types[inner]
            if it["k"] == "bool" or it.get("d") == ORD:
                vals = None
                if self.answers:
                    vals = self.answers(self, eng, st, nm, recv, recs, it["k"])
                if vals is None:
                    vals = [(eng.norm(st, ("m", q, inner, ())), st)]
                out = []
                for v, s in vals:
                    out += self.fallible(eng, s, nm, v) if wrap else [(v, s)]
                return out
        for i, a in enumerate(call.args):
            t = call.argtys[i]
            if t is None:
                continue
            tt = self.p.types[t]
            if tt["k"] == "ref" and tt.get("m"):
                d = self.adt_behind(t)
                loc = eng.deref(a)
                if loc is None or loc[0][0] == "K":
                    continue
                cur = eng.read(st, loc[0], loc[1])
                if cur[0] == "m" and (cur[1].startswith(("W:", "R:", "I:", "rec:")) or d is not None):
                    continue
                if WR.search(self.mention(eng, st, a)):
                    continue
                eng.write(st, loc[0], loc[1], eng.fresh(st, st.frames[-1], "h%d_" % i, tt["a"][0]))
        if kt is not None and kt.get("d") == RES:
            ity = kt["a"][0]
            v = UNIT if self.p.types[ity]["k"] == "tuple" and not self.p.types[ity].get("a") else \
                eng.fresh(st, st.frames[-1], "c", ity)
            return self.fallible(eng, st, nm, v)
        if kt is not None and kt["k"] == "tuple" and not kt.get("a"):
            return [(UNIT, st)]
        n = eng.ufname(st, call) if not (kt is not None and kt["k"] == "adt") else None
        if n is not None:
            return [(eng.norm(st, ("m", n, dty, ())), st)]
        if nm == "clone":
            return [(deepval(eng, st, call.args[0]), st)]
        return [(eng.fresh(st, st.frames[-1], "c", dty), st)]

    def adt_behind(self, ty):
        t = self.p.types[ty]
        while t["k"] in ("ref", "ptr") and t.get("a"):
            t = self.p.types[t["a"][0]]
        if t["k"] == "adt" and t["d"].startswith("cdx::"):
            return t["d"]
        return None

    # ------------------------------------------------------------------ ends
    def on_exit(self, eng, st, val):
        self.exits.append((val, st))

    def on_diverge(self, eng, st, call):
        self.div.append((call, st))

    def run(self, path, args=None, store=None, steps=300000, depth=14, cap=8):
        b = self.p.bodies.get(path)
        if b is None:
            raise Undecided("no function " + path)
        old = absint.CAP
        absint.CAP = cap
        try:
            e = Engine(self.p, self, max_depth=depth, max_steps=steps, head_k=400, join_k=4000, uf=True)
            e.lists = True
            e.recursion = 4
            self.eng = e
            e.run(b, args, store)
        finally:
            absint.CAP = old
        return self


# ---------------------------------------------------------------------- extra models (concrete lists and wrappers)
def x_new(w, eng, st, call):
    dty = eng.placetype(call.body, call.term["d"])
    if dty is not None and eng.p.types[dty].get("d") == "alloc::string::String":
        return None
    return [(("t", None, ()), st)]


def lst(eng, st, v):
    loc = eng.deref(v)
    if loc is None or loc[0][0] == "K":
        return None, None
    x = eng.read(st, loc[0], loc[1])
    if x[0] == "t" and x[1] is None:
        return loc, x[2]
    return loc, None


def x_push(w, eng, st, call):
    loc, xs = lst(eng, st, call.args[0])
    if xs is None or len(xs) > 12:
        return None
    eng.write(st, loc[0], loc[1], ("t", None, xs + (call.args[1],)))
    return [(UNIT, st)]


def x_clear(w, eng, st, call):
    loc, xs = lst(eng, st, call.args[0])
    if xs is None:
        return None
    eng.write(st, loc[0], loc[1], ("t", None, ()))
    return [(UNIT, st)]


def x_pop_any(w, eng, st, call):
    """Heap pop: any element may come out."""
    loc, xs = lst(eng, st, call.args[0])
    if xs is None:
        return None
    if not xs:
        return [(NONE, st)]
    out = []
    for i in range(len(xs)):
        s = st.copy()
        eng.write(s, loc[0], loc[1], ("t", None, xs[:i] + xs[i + 1:]))
        out.append((some(xs[i]), s))
    return out


def x_peek_any(w, eng, st, call):
    return None


def x_pop_last(w, eng, st, call):
    loc, xs = lst(eng, st, call.args[0])
    if xs is None:
        return None
    if not xs:
        return [(NONE, st)]
    eng.write(st, loc[0], loc[1], ("t", None, xs[:-1]))
    return [(some(xs[-1]), st)]


def x_remove(w, eng, st, call):
    loc, xs = lst(eng, st, call.args[0])
    i = call.args[1]
    if xs is None or i[0] != "c" or not 0 <= i[1] < len(xs):
        return None
    eng.write(st, loc[0], loc[1], ("t", None, xs[:i[1]] + xs[i[1] + 1:]))
    return [(xs[i[1]], st)]


def x_swap(w, eng, st, call):
    loc, xs = lst(eng, st, call.args[0])
    i, j = call.args[1], call.args[2]
    if xs is None or i[0] != "c" or j[0] != "c" or not (0 <= i[1] < len(xs) and 0 <= j[1] < len(xs)):
        return None
    l = list(xs)
    l[i[1]], l[j[1]] = l[j[1]], l[i[1]]
    eng.write(st, loc[0], loc[1], ("t", None, tuple(l)))
    return [(UNIT, st)]


def x_ident(w, eng, st, call):
    return [(call.args[0], st)]


def x_rc_new(w, eng, st, call):
    fr = st.frames[-1]
    b = eng.fresh(st, fr, "rc", None)
    root = ("O", b[1], call.argtys[0])
    st.store[root] = call.args[0]
    return [(("r", root, ()), st)]


def x_deref(w, eng, st, call):
    """Deref of Rc / Ref / RefMut: the pointer they hold."""
    from .models import arg_adt
    adt = arg_adt(eng, call, 0)
    if adt in ("alloc::rcs::rc::Rc", "alloc::rc::Rc", "core::cell::Ref", "core::cell::RefMut", "alloc::sync::Arc"):
        v = eng.pointee(st, call.args[0])
        if v[0] == "r":
            return [(v, st)]
    return None


def x_clone(w, eng, st, call):
    v = eng.pointee(st, call.args[0])
    return [(v, st)] if v is not TOP else None


def x_collect(w, eng, st, call):
    it = call.args[0]
    if it[0] == "it" and it[1] == "copied" and it[2][0][0] == "it" and it[2][0][1] == "list":
        src = it[2][0]
        return [(("t", None, tuple(eng.pointee(st, x) if x[0] in ("r", "kp") else x for x in src[2][src[3]:])), st)]
    if it[0] == "it" and it[1] == "list":
        return [(("t", None, it[2][it[3]:]), st)]
    if it[0] in ("t",) and it[1] and it[1].startswith("core::ops::range::Range"):
        i2 = mk_iter(eng, st, it, None)
        if i2[1] == "list":
            return [(("t", None, i2[2]), st)]
    return None


def x_flatten(w, eng, st, call):
    it = call.args[0]
    if it[0] != "it" or it[1] != "list":
        return None
    out = []
    for e in it[2][it[3]:]:
        v = eng.pointee(st, e) if e[0] in ("r", "kp") else e
        if v[0] == "e" and v[1] == OPT:
            if v[2] == 1:
                if e[0] == "r":
                    out.append(("r", e[1], e[2] + ((("v", 1), None, "@Some"), (("f", 0), None, ".0"))))
                else:
                    out.append(v[3][0])
            continue
        if v[0] == "t" and v[1] is None:
            out += list(v[2])
            continue
        return None
    return [(("it", "list", tuple(out), 0), st)]


def x_arg(w, eng, st, call):
    return [(("t", "fmt", (deepval(eng, st, call.args[0]),)), st)]


def x_args(w, eng, st, call):
    parts = []
    for a in call.args:
        v = deepval(eng, st, a)
        if v[0] == "t":
            parts += list(v[2])
        elif v[0] in ("s", "b"):
            parts.append(v)
    return [(("t", "fmts", tuple(parts)), st)]


def x_format(w, eng, st, call):
    v = call.args[0]
    if v[0] == "t":
        return [(("t", "str", v[2]), st)]
    return None


def x_unit(w, eng, st, call):
    return [(UNIT, st)]


def x_print(w, eng, st, call):
    w.log(st, ("print", call.callee.name, " ".join(w.mention(eng, st, call.args[0]).split())))
    return [(UNIT, st)]


def x_extend(w, eng, st, call):
    loc, xs = lst(eng, st, call.args[0])
    if xs is None:
        return None
    eng.write(st, loc[0], loc[1], eng.fresh(st, st.frames[-1], "ext", None))
    return [(UNIT, st)]


def x_last(w, eng, st, call):
    v = deepval(eng, st, call.args[0])
    if v[0] == "m" and v[1].startswith("buf("):
        return [(some(("kp", ("m", "last(%s)" % v[1], None, ()))), st)]
    return None


def x_vdefault(w, eng, st, call):
    dty = eng.placetype(call.body, call.term["d"])
    if dty is not None and eng.p.types[dty].get("d") == "alloc::vec::Vec":
        return [(("t", None, ()), st)]
    return None


def x_resize(w, eng, st, call):
    loc, xs = lst(eng, st, call.args[0])
    n = call.args[1]
    if xs is None or n[0] != "c" or n[1] > 128:
        return None
    eng.write(st, loc[0], loc[1], ("t", None, xs[:n[1]] + (call.args[2],) * (n[1] - len(xs))))
    return [(UNIT, st)]


def x_range_incl(w, eng, st, call):
    a, b = call.args
    if a[0] == "c" and b[0] == "c" and b[1] - a[1] < 16:
        return [(("it", "list", tuple(("c", i) for i in range(a[1], b[1] + 1)), 0), st)]
    return None


def x_split(w, eng, st, call):
    """Splitting a string that is not known gives one to three parts."""
    v = deepval(eng, st, call.args[0])
    if v[0] != "m":
        return None
    out = []
    for k in (1, 2, 3):
        s = st.copy()
        parts = []
        for i in range(k):
            root = ("O", "%s/%d" % (v[1], i), None)
            parts.append(("r", root, ()))
        out.append((("it", "list", tuple(parts), 0), s))
    return out


def x_to_usize(w, eng, st, call):
    v = deepval(eng, st, call.args[0])
    if v[0] == "s" and v[1].isdigit() and v[1].isascii():
        return [(ok(("c", int(v[1]))), st)]
    return None


XMODELS = {
    "core::ops::range::RangeInclusive::<Idx>::new": x_range_incl, "core::str::<impl str>::split": x_split,
    "core::default::Default::default": x_vdefault, "alloc::vec::Vec::<T, A>::resize": x_resize,
    "alloc::vec::Vec::<T>::new": x_new, "alloc::vec::Vec::<T>::with_capacity": x_new,
    "alloc::vec::Vec::<T, A>::push": x_push, "alloc::vec::Vec::<T, A>::clear": x_clear,
    "alloc::vec::Vec::<T, A>::pop": x_pop_last, "alloc::vec::Vec::<T, A>::remove": x_remove,
    "core::cell::RefCell::<T>::new": x_ident, "core::cell::RefCell::<T>::borrow": x_ident,
    "core::cell::RefCell::<T>::borrow_mut": x_ident,
    "alloc::rcs::rc::Rc::<T>::new": x_rc_new, "alloc::rc::Rc::<T>::new": x_rc_new,
    "core::ops::deref::Deref::deref": x_deref, "core::ops::deref::DerefMut::deref_mut": x_deref,
    "core::iter::traits::iterator::Iterator::collect": x_collect,
    "core::iter::traits::iterator::Iterator::flatten": x_flatten,
    "core::fmt::Arguments::<'a>::new": x_args, "core::fmt::Arguments::<'a>::from_str": x_args,
    "alloc::fmt::format": x_format,
    "std::io::stdio::_eprint": x_print, "std::io::stdio::_print": x_print,
    "core::slice::<impl [T]>::last": x_last, "core::slice::<impl [T]>::swap": x_swap,
}
XSUFFIX = [
    ("::to_usize_whole", x_to_usize),
    ("BinaryHeap::<T, C>::push", x_push), ("BinaryHeap::<T, C>::pop", x_pop_any),
    ("FnComparator<F>>::new_by", x_new), ("core::fmt::rt::Argument::<'_>::new_display", x_arg),
    ("core::fmt::rt::Argument::<'_>::from_usize", x_arg), ("core::fmt::rt::Argument::<'_>::new_debug", x_arg),
    ("BinaryHeap::<T, C>::is_empty", MODELS["alloc::vec::Vec::<T, A>::is_empty"]),
    ("BinaryHeap::<T, C>::len", MODELS["alloc::vec::Vec::<T, A>::len"]),
]
XSUFFIX = [(a, (lambda m: (lambda w, eng, st, call: m(eng, st, call)))(b) if b in MODELS.values() else b) for a, b in XSUFFIX]


def tools(prog):
    """{tool: main path} from the dispatch table (all functions referenced by cdxmain::MAINLIST)."""
    out = {}
    for p in prog.bodies:
        m = re.match(r"bin::(\w+)_main::main$", p)
        if m:
            out[m.group(1)] = p
    return dict(sorted(out.items()))


def isok(v):
    return v[0] == "e" and v[1] == RES and v[2] == 0


def iserr(v):
    return v[0] == "e" and v[1] == RES and v[2] == 1
