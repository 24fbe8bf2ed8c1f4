"""C18: header names and data columns stay in step."""
import re
from ..absint import Undecided, UNIT, TRUE, FALSE, deepval
from ..models import RES
from ..world import World, ok, isok, REC, WR
from ..toolruns import jobs, run, parse_opt
from .common import where, par, impls, outcomes
from ..models import aslist

CH = "cdx::column::ColumnHeader"
WT = "cdx::column::Writer"
SETS = ("cdx::column::ReaderColumns",)
WHOLE = ("cdx::column::ColumnWhole",)
SL = "cdx::util::StringLine"


def leaf(w, eng, st, v, d=0):
    """Tokens a written value consists of: ("k", text) for constants, ("x", name) for anything else."""
    if d > 8:
        return [("x", "?")]
    if v[0] == "s":
        return [("k", v[1])]
    if v[0] == "b":
        return [("k", v[1] if isinstance(v[1], str) else bytes(v[1]).decode("latin-1"))]
    if v[0] == "c":
        return [("n", v[1])]
    if v[0] in ("r", "kp"):
        loc = eng.deref(v)
        if loc is None:
            return [("x", eng.nm(v) or "?")]
        x = eng.read(st, loc[0], loc[1])
        if x[0] in ("s", "b", "c", "t", "e", "r", "kp"):
            return leaf(w, eng, st, x, d + 1)
        n = eng.nm(x) if x[0] == "m" else None
        return [("x", n or (eng.locname(*loc) if loc[0][0] == "O" else "?"))]
    if v[0] == "t":
        return [t for x in v[2] for t in leaf(w, eng, st, x, d + 1)]
    if v[0] == "e":
        return [t for x in v[3] for t in leaf(w, eng, st, x, d + 1)]
    return [("x", eng.nm(v) or "?")]


def template(ts):
    """Tokens of formatted output: the compiled template is the first constant, the rest are its arguments."""
    if not ts or ts[0][0] != "k":
        return [("x", "fmt")]
    tpl, args = ts[0][1], list(ts[1:])
    out, i = [], 0
    while i < len(tpl):
        c = ord(tpl[i])
        if c == 0 and i == len(tpl) - 1:
            break
        if c == 0xC0:
            if not args:
                return [("x", "fmt")]
            a = args.pop(0)
            out.append(("x", "number") if a[0] == "n" else a)
            i += 1
        elif c < 0x80:
            out.append(("k", tpl[i + 1:i + 1 + c]))
            i += 1 + c
        else:
            return [("x", "fmt")]
    return out


class ColWorld(World):
    """World in which headers, column rules and what is written are followed column by column."""

    @staticmethod
    def log(st, ev):
        m = st.mon
        if len(m[1]) > 400:
            raise Undecided("state limit: events")
        st.mon = (m[0], m[1] + (ev,)) + m[2:]
        st.note("event %s" % (ev,))

    def hid(self, eng, st, v):
        n = self.ident(eng, st, v)
        return n if n and n.startswith("H:") else None

    def units(self, st, h):
        """Units of a header object or a rule list."""
        out = []
        for e in st.mon[1]:
            if e[0] == "u" and e[1] == h:
                if e[2] is None:
                    out = []
                else:
                    out.append(e[2])
        return out

    def write_call(self, eng, st, call, name):
        w = WR.search(self.mention(eng, st, call.args[0]))
        if w is not None and name in ("write_all", "write_fmt", "write"):
            ts = leaf(self, eng, st, call.args[1])
            if name == "write_fmt":
                ts = template(ts)
            else:
                ts = [("k", chr(t[1])) if t[0] == "n" else t for t in ts]
            self.log(st, ("w", w.group(), tuple(ts)))
            self.set_out(st, w.group(), 1)
            return self.fallible(eng, st, "write", UNIT)
        return super().write_call(eng, st, call, name)

    def file_of(self, eng, st, v):
        m = re.search(r"header:(\w+)", self.mention(eng, st, v))
        return m.group(1) if m else "?"

    def rule_call(self, eng, st, call):
        c = call.callee
        fn = c.res or c.fn
        dty = eng.placetype(call.body, call.term["d"])
        res = dty is not None and self.p.types[dty].get("d") == RES
        done = lambda: [(ok(UNIT) if res else UNIT, st)]
        hs = [self.hid(eng, st, a) for a in call.args]
        h = next((x for x in hs if x), None)
        if fn.startswith(CH + "::") or fn.startswith("<%s as " % CH):
            if c.name in ("new", "default"):
                k = 1 + sum(1 for e in st.mon[1] if e[0] == "u" and e[2] is None and e[1].startswith("H:"))
                self.log(st, ("u", "H:%d" % k, None))
                return [(("m", "H:%d" % k, dty, ()), st)]
            if h:
                if c.name == "clear":
                    self.log(st, ("u", h, None))
                    return done()
                if c.name in ("push", "push_unchecked"):
                    self.log(st, ("u", h, "1"))
                    return done()
                if c.name in ("push_all", "push_all_unchecked"):
                    self.log(st, ("u", h, "all:" + self.file_of(eng, st, call.args[1])))
                    return done()
                if c.name in ("get_head", "get_head_short"):
                    us = self.units(st, h)
                    return [(("m", "HEAD[%s]" % "|".join(us), dty, ()), st)]
                if c.name in ("rename", "rename_sloppy", "set_handling", "check_rename"):
                    return done()
        elif h and call.args:
            r = self.ident(eng, st, call.args[0])
            if r is None:
                raise Undecided("header given to " + fn)
            if self.adt_behind(call.argtys[0]) == WT:
                f = self.file_of(eng, st, call.args[2]) if len(call.args) > 2 else "?"
                for u in self.units(st, "V:" + r):
                    self.log(st, ("u", h, u.replace("all:?", "all:" + f)))
            elif r in dict(st.mon[3]):
                self.log(st, ("u", h, "by:" + r))
            return done()
        a0 = self.adt_behind(call.argtys[0]) if call.argtys and call.argtys[0] is not None else None
        r = self.ident(eng, st, call.args[0]) if a0 else None
        if r and a0 == WT and c.name == "push":
            v = call.args[1]
            t = self.p.types[v[1][2]]["s"] if v[0] == "r" and v[1][0] == "O" and v[1][2] is not None else ""
            if not t.startswith("cdx::"):
                t = self.made_type(eng, st, v)
            n = len(self.units(st, "V:" + r))
            self.log(st, ("u", "V:" + r, "all:?" if t in WHOLE else "set:%s:%d" % (r, n) if t in SETS else "1"))
            return super().rule_call(eng, st, call)
        if r and c.name == "fill" and len(call.args) > 1 and self.adt_behind(call.argtys[1]) == WT:
            v = self.ident(eng, st, call.args[1])
            if v is None:
                raise Undecided("rule list")
            if a0 == "cdx::agg::AggList":
                for i in range(dict(st.mon[3]).get(r, 0)):
                    self.log(st, ("u", "V:" + v, "1"))
            elif r in dict(st.mon[3]):
                self.log(st, ("u", "V:" + v, "by:" + r))
            return done()
        if r and c.name == "deep_clone":
            return [(deepval(eng, st, call.args[0]), st)]
        if r and c.name == "write" and a0 == WT:
            us = self.units(st, "V:" + r)
            recs = [x for a in call.args for x in REC.findall(self.mention(eng, st, a))]
            w = next((x.group() for x in (WR.search(self.mention(eng, st, a)) for a in call.args) if x), None)
            if w is None:
                raise Undecided("output of a rule list")
            f = recs[0][0] if recs else "?"
            self.log(st, ("w", w, (("row", "|".join(u.replace("all:?", "all:" + f) for u in us)),)))
            return [(ok(UNIT), st)]
        if r and c.name == "write_data" and any(WR.search(self.mention(eng, st, a)) for a in call.args[1:2]):
            w = WR.search(self.mention(eng, st, call.args[1])).group()
            d = leaf(self, eng, st, call.args[2])
            d = d[0] if len(d) == 1 else ("x", "?")
            if r in dict(st.mon[3]):
                self.log(st, ("w", w, (("by", r), ("k", chr(d[1])) if d[0] == "n" else d)))
            return [(ok(UNIT), st)]
        return super().rule_call(eng, st, call)

    def made_type(self, eng, st, v):
        w = deepval(eng, st, v)
        if w[0] == "m" and w[2] is not None:
            return self.p.types[w[2]]["s"]
        if w[0] in ("t", "e") and w[1]:
            return w[1]
        return ""


# ---------------------------------------------------------------------- what the output looks like
NCOL = 2
DELIM = re.compile(r"(^|[.*])delim$|^delim:\w+$|_delim$")


class Row:
    def __init__(self):
        self.w = 0
        self.parts = []
        self.delims = set()
        self.field = []
        self.known = True
        self.head = False
        self.open = False

    def width(self):
        return None if not self.known else self.w


def size(u):
    if u == "1":
        return 1
    if u.startswith("all:"):
        return NCOL
    if u.startswith("set:"):
        return 100 + sum(u.encode()) % 17
    if u.startswith("by:"):
        return 1000 + sum(u.encode()) % 97
    raise Undecided("unit " + u)


def rows(events, out):
    """[Row] written to one output; None in the list where the output is not followed."""
    res = []
    cur = Row()

    def close_field():
        many = [t for t in cur.field if t != "1"]
        cur.w += max(1, sum(size(t) for t in many) - (len(many) - 1))      # what is not separated is one column
        cur.parts.append("+".join(cur.field) or "''")
        cur.field = []

    def end():
        nonlocal cur
        close_field()
        res.append(cur)
        cur = Row()

    def delim(kind):
        close_field()
        cur.delims.add(kind)

    def put(u):
        cur.field.append(u)
    for e in events:
        if e[0] != "w" or e[1] != out:
            continue
        ts = e[2]
        if isinstance(ts, str):
            m = re.match(r"(line|nl)\((rec|norec):(\w+)", ts)
            if m and m.group(2) == "rec":
                ts = (("x", ts),)
            elif ts.startswith("header:"):
                res.append(None)
                continue
            elif re.match(r"(result|print)\(", ts):
                ts = (("x", "value"),)
            else:
                cur.known = False
                ts = (("x", "value"),)
        for k, t in ts:
            if k == "k":
                if t.startswith(" CDX") and not cur.parts and not cur.field:
                    cur.head = True
                    cur.w -= 1              # the marker is not a name
                for ch in re.findall(r"\t|\n|[^\t\n]+", t):
                    if ch == "\n":
                        end()
                    elif ch == "\t":
                        delim("tab")
                    else:
                        put("1")
            elif k == "by":
                put("by:" + t)
            elif k == "row":
                us = t.split("|") if t else []
                for i, u in enumerate(us):
                    if i:
                        delim("format")
                    put(u)
                end()
            elif t.startswith("HEAD["):
                r = Row()
                r.head = True
                r.parts = t[5:-1].split("|") if t != "HEAD[]" else []
                r.w = sum(size(u) for u in r.parts)
                r.delims = {"format"} if len(r.parts) > 1 or any(u != "1" for u in r.parts) else set()
                res.append(r)
            elif DELIM.search(t):
                delim("format")
            elif re.match(r"line\(rec:(\w+):\d+\)(\*)?$", t):
                put("all:" + t[9:].split(":")[0])
                end()
            elif re.match(r"(nl|line)\(rec:(\w+)", t):
                put("all:" + re.search(r"rec:(\w+)", t).group(1))
            elif re.match(r"<(new|cl|c)\w*:\d+>$", t) and t.startswith(("<new", "<cl")):
                pass                        # an empty string
            elif t.startswith("header:"):
                if not cur.parts and not cur.field:
                    res.append(None)
                else:
                    cur.known = False
                    put("1")
            elif "norec" in t or t.startswith(("all:", "raw", "buf(", "I:", "<", "~")):
                cur.known = False
                put("1")
            else:
                put("1")
    if cur.known and any(r is not None for r in res) and (cur.parts or cur.field):
        close_field()
        cur.open = True
        res.append(cur)
    return res


def tables(prog, rep, tier):
    """Every tool is interpreted with every advertised option on abstract files of two columns, following names pushed
    to the header and columns written: every record written has as many columns as the header written before it (or as
    the other records, without a header), and the same delimiter."""
    js = jobs(prog, rep, "tables", skip=("tooltest", "info", "calc"))
    have = {j[0]: j for j in js}
    for tool, cs in EXTRA.items():
        if tool in have:
            _, path, _, _, _ = have[tool]
            files = max((j[3] for j in js if j[0] == tool), key=len)
            for o in cs:
                os = tuple(parse_opt(x) for x in o.split())
                js.append((tool, path, " ".join("--" + x for x in o.split()), files, os))
    par(rep, js, lambda j, r: table(prog, r, tier, *j))


# combinations of options that decide about columns together
EXTRA = {
    "wc": ["columns lines words", "columns lines words total=only", "columns lines total=yes with-header=yes", "columns lines total=only with-header=yes",
           "columns lines file=no total=yes with-header=yes", "columns lines file=yes,x total=yes", "lines words bytes total=yes",
           "lines words total=only with-header=yes", "lines file=yes,x total=yes with-header=yes", "lines file=no total=yes with-header=yes",
           "lines words file=yes,x with-header=yes"],
    "uniq": ["agg=a,count count=x,begin", "agg=a,count count=x,end", "agg-pre=p,a,count agg-post=q,a,count"],
    "cut": ["fields=a fields=b", "fields=a expr=e:1 group=,g:1-2 composite=c:^1", "composite=c:^1 fields=a"],
    "cgrep": ["pattern location=x", "location=x location=y"],
    "cat": ["number=x,1,begin skip remove", "number=x,1,end skip remove"],
    "paste": ["end=Late default=x last", "end=Early"],
}


def table(prog, rep, tier, tool, path, label, files, opts):
    what = "%s %s" % (tool, label)
    try:
        w = run(prog, path, files, opts, cls=ColWorld, ladder=((-1, 0, 1), (0, 1), (1,)) if len(files) > 1 else ((-1, 0, 1, 2), (0, 2), (2,)),
                steps=60000 if tier == "thorough" else 25000)
    except Undecided as e:
        rep.unk("tables", what, e)
        return
    bad = None
    seen = 0
    for v, st in w.exits:
        if not isok(v) or not feasible(st):
            continue
        for out in sorted({e[1] for e in st.mon[1] if e[0] == "w"}):
            rs = rows(st.mon[1], out)
            ref = None
            for r in rs:
                if r is None:
                    ref = None
                    continue
                seen += 1
                if r.width() is None:
                    continue
                ww = r.width()
                if r.open:
                    bad = bad or ("leaves the last record without a line break", st)
                if ref is None or r.head:
                    ref = r
                    continue
                if ww != ref.width():
                    bad = bad or ("writes %s (%s) under %s (%s)" % (cols(ww), desc(r), "a header of " + cols(ref.width()) if ref.head else "a record of " + cols(ref.width()), desc(ref)), st)
                elif "tab" in r.delims and "format" in ref.delims or "format" in r.delims and "tab" in ref.delims:
                    bad = bad or ("separates some columns by the delimiter of the format and some by a tab", st)
    if bad:
        rep.bad("tables", what, where(prog.bodies[path]), "%s %s" % (what, bad[0]), bad[1].trace(12))
    elif seen:
        rep.ok("tables", what)
        rep.count("output records", seen)


def feasible(st):
    """A record that was read ends in a line break."""
    for k, v in st.asm.items():
        if "line(rec:" in k and "q:" not in k:
            if re.match(r"eq\(0,len\(line\(rec:\w+:\d+\)\)\)$", k) and v == ("c", 1):
                return False
            if not re.match(r"eq\(0,len\(line\(rec:\w+:\d+\)\)\)$|eq\(10,", k) or v == ("c", 0) and k.startswith("eq(10"):
                return False                # a property of the text of the record that is not followed
    return True


def cols(n):
    return "%s columns" % n if n < 100 else "other columns"


def desc(r):
    return ", ".join(r.parts)


# ---------------------------------------------------------------------- the pieces
CF = "cdx::column::ColumnFun"
CS = "cdx::column::ColumnSet"
TM = "cdx::util::TextFileMode"


class LibWorld(ColWorld):
    """For single functions: members of rule lists are symbolic, what they write is one token."""

    def rule_call(self, eng, st, call):
        c = call.callee
        fn = c.res or c.fn
        dty = eng.placetype(call.body, call.term["d"])
        if c.fn == CF + "::is_empty" and (c.res is None or c.res == c.fn or c.virt):
            r = (self.ident(eng, st, call.args[0]) or "?").rstrip("*")
            return [(TRUE if b else FALSE, s) for b, s in eng.fork_bool(st, eng.norm(st, ("m", "empty(%s)" % r, dty, ())))]
        if c.fn == CF + "::write" and (c.res is None or c.res == c.fn or c.virt):
            r = (self.ident(eng, st, call.args[0]) or "?").rstrip("*")
            w = WR.search(self.mention(eng, st, call.args[1]))
            t = " ".join(self.mention(eng, st, call.args[3]).split())
            if w:
                self.log(st, ("w", w.group(), (("item", r + " " + t),)))
                return [(ok(UNIT), st)]
        if c.fn == CF + "::add_names" and (c.res is None or c.res == c.fn or c.virt):
            h = self.hid(eng, st, call.args[1])
            r = (self.ident(eng, st, call.args[0]) or "?").rstrip("*")
            if h:
                self.log(st, ("u", h, "item " + r))
                return [(ok(UNIT), st)]
        if fn == TM + "::write":
            w = WR.search(self.mention(eng, st, call.args[1]))
            if w:
                self.log(st, ("w", w.group(), (("x", "text"),)))
                return [(ok(UNIT), st)]
            return [(ok(UNIT), st)]
        return super().rule_call(eng, st, call)


def toks(st, out="W:o"):
    """What was written, as fields: list of lists, and how often the line was ended."""
    fields, cur, ends = [], [], 0
    n = 0
    for e in st.mon[1]:
        if e[0] != "w":
            continue
        ts = e[2] if not isinstance(e[2], str) else (("x", e[2]),)
        for k, t in ts:
            n += 1
            if ends:
                return None, 2
            if k == "k" and t == "\n" or k == "x" and re.search(r"line_break$", t):
                ends += 1
            elif k == "x" and DELIM.search(t) or k == "k" and t in ("\t", "DELIM"):
                fields.append(cur)
                cur = []
            else:
                cur.append((k, t))
    fields.append(cur)
    return (fields if n else []), ends


def libargs(prog, b, over):
    """Arguments of a library function: writers, records and headers are abstract objects."""
    args, store = {}, {}
    for i in range(1, b.nargs + 1):
        ty = b.locals[i]
        s = prog.types[ty]["s"]
        pt = prog.types[ty]["a"][0] if prog.types[ty]["k"] == "ref" else None
        if i in over:
            args[i] = over[i]
        elif "Write" in s or s == "&mut impl Write":
            args[i] = ("r", ("O", "W:o", pt), ())
        elif s.endswith("TextLine"):
            args[i] = ("r", ("O", "rec:F0:1", pt), ())
            store[("O", "rec:F0:1", pt)] = ("m", "rec:F0:1", pt, ())
        elif s.endswith(CH):
            args[i] = ("r", ("O", "H:1", pt), ())
            store[("O", "H:1", pt)] = ("m", "H:1", pt, ())
        elif s.endswith(SL):
            args[i] = ("r", ("O", "header:F0", pt), ())
        elif s.endswith(TM):
            args[i] = ("r", ("O", "outer", pt), ())
            store[("O", "outer", pt)] = ("m", "outer", pt, ())
    return args, store


def libself(prog, b, fields, name="self"):
    ty = b.locals[1]
    pt = prog.types[ty]["a"][0]
    adt = prog.adt_of(pt)
    fs = prog.adts[adt]["variants"][0]["fields"]
    over = tuple((("f", j), fields[f["name"]]) for j, f in enumerate(fs) if f["name"] in fields)
    if len(over) != len(fields):
        raise Undecided("fields of " + adt)
    root = ("O", name, pt)
    return ("r", root, ()), {root: ("m", name, pt, over)}


def lib(prog, path, fields, inline=(), name="self"):
    b = prog.bodies.get(path)
    if b is None:
        raise Undecided("no function " + path)
    a, st = libself(prog, b, fields, name)
    args, store = libargs(prog, b, {1: a})
    store.update(st)
    w = LibWorld(prog, files=("F0",), inline=set(inline))
    w.run(path, args=args, store=store, steps=20000)
    return w


def items(prog, adt, field, k):
    """k symbolic elements of a list field."""
    f = next((f for f in prog.adts[adt]["variants"][0]["fields"] if f["name"] == field), None)
    if f is None:
        raise Undecided("no field %s" % field)
    et = prog.types[f["ty"]]["a"][0]
    return ("t", None, tuple(("m", "item%d" % i, et, ()) for i in range(k)))


def lists(prog, rep, tier):
    """A list of column rules, for lengths 0 to 3 and any of them writing no columns: add_names asks every rule in order;
    write writes the rules that have columns in the same order, exactly one delimiter between two of them and one line
    break at the end."""
    p = WT + "::add_names"
    for k in range(4):
        try:
            w = lib(prog, p, {"v": items(prog, WT, "v", k)})
            for v, st in w.exits:
                got = [e[2] for e in st.mon[1] if e[0] == "u" and e[1] == "H:1"]
                if isok(v) and got != ["item item%d" % i for i in range(k)]:
                    rep.bad("lists", "%s %d" % (p, k), where(prog.bodies[p]), "%s does not take the names of all rules of a list of %d in order" % (p, k), st.trace(8))
                    break
            else:
                rep.ok("lists", "%s, %d rules" % (p, k))
        except Undecided as e:
            rep.unk("lists", "%s %d" % (p, k), e)
    p = WT + "::write"
    for k in range(4):
        try:
            w = lib(prog, p, {"v": items(prog, WT, "v", k)})
            bad = None
            for v, st in w.exits:
                if not isok(v):
                    continue
                rep.count("paths through rule lists")
                fs, ends = toks(st)
                if fs is None or ends != 1:
                    bad = bad or ("does not end the record with exactly one line break", st)
                    continue
                got = [[t.split(" ")[0] for kk, t in f if kk == "item"] for f in fs]
                flat = [x for f in got for x in f]
                asked = {i: st.asm.get("empty(item%d)" % i) for i in range(k)}
                want = ["item%d" % i for i in range(k) if asked[i] != ("c", 1)]
                if flat != want:
                    bad = bad or ("writes %s of the rules %s" % (", ".join(flat) or "none", ", ".join(want)), st)
                elif [len(f) for f in got] != [1] * len(want) and want:
                    bad = bad or ("does not separate consecutive rules by exactly one delimiter", st)
                elif k > 1 and any(asked[i] is None for i in range(k)) and hasempty(prog):
                    bad = bad or ("separates a rule without columns", st)
            if bad:
                rep.bad("lists", "%s %d" % (p, k), where(prog.bodies[p]), "%s with %d rules %s" % (p, k, bad[0]), bad[1].trace(8))
            elif w.exits:
                rep.ok("lists", "%s, %d rules" % (p, k))
        except Undecided as e:
            rep.unk("lists", "%s %d" % (p, k), e)
    by_member(prog, rep)


def by_member(prog, rep):
    """Other lists that contribute columns: location columns and generated columns."""
    for adt, names, write, trail in (("cdx::util::FileLocList", "add", "write_data", True), ("cdx::textgen::GenList", None, "write", False)):
        for k in range(4):
            what = "%s::%s, %d members" % (adt, write, k)
            try:
                if names:
                    p = "%s::%s" % (adt, names)
                    w = lib(prog, p, {"v": items(prog, adt, "v", k)})
                    for v, st in w.exits:
                        got = [e for e in st.mon[1] if e[0] == "u" and e[1] == "H:1"]
                        if isok(v) and len(got) != k:
                            rep.bad("lists", p, where(prog.bodies[p]), "%s adds %d names for %d members" % (p, len(got), k), st.trace(8))
                p = "%s::%s" % (adt, write)
                b = prog.bodies.get(p)
                if b is None:
                    raise Undecided("no function " + p)
                a, s0 = libself(prog, b, {"v": items(prog, adt, "v", k)})
                over = {1: a}
                for i in range(2, b.nargs + 1):
                    if prog.types[b.locals[i]]["s"] == "u8":
                        over[i] = ("m", "the.delim", b.locals[i], ())
                args, store = libargs(prog, b, over)
                store.update(s0)
                w = LibWorld(prog, files=("F0",), inline={"cdx::util::FileLoc::write_data"})
                w.run(p, args=args, store=store, steps=20000)
                bad = None
                for v, st in w.exits:
                    if not isok(v):
                        continue
                    fs, ends = toks(st)
                    if fs is None or ends != (0 if trail else 1):
                        bad = bad or ("ends the record wrongly", st)
                    n = (len(fs) - 1 if trail else len(fs)) if fs else 0
                    if trail and fs and fs[-1]:
                        bad = bad or ("does not end with a delimiter", st)
                    if n != max(k, 0 if trail else 1):
                        bad = bad or ("writes %d columns" % n, st)
                if bad:
                    rep.bad("lists", what, where(b), "%s for %d members %s" % (p, k, bad[0]), bad[1].trace(8))
                elif w.exits:
                    rep.ok("lists", what)
            except Undecided as e:
                rep.unk("lists", what, e)


def hasempty(prog):
    return any(f.endswith("::is_empty") for t, f in impls(prog, CF, "is_empty"))


def selection(prog, k):
    """A column set that was resolved to k columns."""
    f = next((f for f in prog.adts[CS]["variants"][0]["fields"] if f["name"] == "columns"), None)
    fs = {f["name"] for f in prog.adts[CS]["variants"][0]["fields"]}
    if f is None or "did_lookup" not in fs:
        raise Undecided("fields of " + CS)
    return {"columns": items(prog, CS, "columns", k), "did_lookup": TRUE}


def nested(prog, adt, field, fields):
    """Value of a field of structure type with some fields known."""
    f = next((f for f in prog.adts[adt]["variants"][0]["fields"] if f["name"] == field), None)
    if f is None:
        raise Undecided("no field %s in %s" % (field, adt))
    fs = prog.adts[prog.adt_of(f["ty"])]["variants"][0]["fields"]
    over = tuple((("f", j), fields[x["name"]]) for j, x in enumerate(fs) if x["name"] in fields)
    return ("m", "self." + field, f["ty"], over)


def parts(prog, adt):
    """Fields of a rule that are lists of structures, with two members each."""
    res = {}
    for f in prog.adts[adt]["variants"][0]["fields"]:
        t = prog.types[f["ty"]]
        if t.get("d") == "alloc::vec::Vec" and prog.types[t["a"][0]].get("d", "").startswith("cdx::"):
            res[f["name"]] = items(prog, adt, f["name"], 2)
    return res


def pieces(prog, rep, tier):
    """Every column rule: as many names are pushed as columns are written, for every number of selected columns from 0
    to 3; only a selection writes delimiters; none ends the record; a selection says it is empty exactly if it is."""
    for t, p in impls(prog, CF, "write"):
        n = dict(impls(prog, CF, "add_names")).get(t)
        e = dict(impls(prog, CF, "is_empty")).get(t)
        cases = range(4) if t in SETS else (None,)
        for k in cases:
            what = t if k is None else "%s, %d columns" % (t, k)
            try:
                if n is None:
                    raise Undecided("no names")
                fields = parts(prog, t) if k is None else {"columns": nested(prog, t, "columns", selection(prog, k))}
                inl = {CS + "::" + x for x in ("write3", "write3s", "write2", "write", "get_cols", "fetch", "len", "is_empty")}
                names = lib(prog, n, fields, inl)
                got = {tuple(names.units(st, "H:1")) for v, st in names.exits if isok(v)}
                want = k
                if k is None:
                    if got == {("1",)}:
                        want = 1
                    elif len(got) == 1 and next(iter(got))[0].startswith("all:") and len(next(iter(got))) == 1:
                        want = "all"
                    else:
                        rep.bad("pieces", what, where(prog.bodies[n]), "%s pushes %s names" % (n, " or ".join(str(len(g)) for g in sorted(got))), [])
                        continue
                elif got != {("1",) * k}:
                    rep.bad("pieces", what, where(prog.bodies[n]), "%s pushes %s names for %d columns" % (n, " or ".join(str(len(g)) for g in sorted(got)), k), [])
                    continue
                w = lib(prog, p, fields, inl)
                bad = None
                seen = 0
                for v, st in w.exits:
                    if not isok(v):
                        continue
                    seen += 1
                    fs, ends = toks(st)
                    if ends:
                        bad = bad or ("ends the record", st)
                    elif want == "all":
                        one = [x for f in fs for x in f]
                        if len(fs) != 1 or len(one) != 1:
                            bad = bad or ("writes more than the record", st)
                        elif one[0][1] == "line(rec:F0:1)":
                            bad = bad or ("writes the line break too", st)
                        elif not re.match(r"nl\(rec:F0:1|line\(rec:F0:1\)\[\(0,sub\(len\(line\(rec:F0:1\)\),1\)\)\]$", one[0][1]):
                            raise Undecided("text of the record")
                    elif len(fs) != want and not (want == 1 and not fs):
                        bad = bad or ("writes %d columns for %d names" % (len(fs), want), st)
                    elif k is None and any(x[0] == "item" and not re.search(r"\bself\b", x[1].split(" ", 1)[-1]) for f in fs for x in f):
                        bad = bad or ("lets the rule it wraps use the delimiter of the output", st)
                    elif k is not None and any(len(f) != 1 for f in fs):
                        bad = bad or ("does not separate its columns by exactly one delimiter", st)
                if bad:
                    rep.bad("pieces", what, where(prog.bodies[p]), "%s %s" % (p, bad[0]), bad[1].trace(8))
                    continue
                if not seen:
                    raise Undecided("no way through")
                if k is not None and e is not None:
                    w = lib(prog, e, fields, inl)
                    if any(v != (TRUE if k == 0 else FALSE) for v, st in w.exits if v[0] == "c"):
                        rep.bad("pieces", what, where(prog.bodies[e]), "%s says %s for %d columns" % (e, "no" if k == 0 else "yes", k), [])
                        continue
                rep.ok("pieces", what)
            except Undecided as x:
                rep.unk("pieces", what, x)


STR = ("alloc::string::String::push", "alloc::string::String::push_str")


def headers(prog, rep, tier):
    """The header itself: pushing a name either fails or adds exactly one name, whatever is already there and however
    duplicates are handled; the header line has all names in order, one delimiter between two, the marker (if any) and
    its delimiter first and one line break last."""
    for k in range(4):
        for f in ("push", "push_unchecked"):
            what = "%s::%s onto %d names" % (CH, f, k)
            try:
                b = prog.bodies.get("%s::%s" % (CH, f))
                if b is None:
                    raise Undecided("no function")
                a, store = libself(prog, b, {"cols": items(prog, CH, "cols", k), "rename": items(prog, CH, "rename", 1)})
                m = outcomes(prog, b.path, args={1: a}, store=store, lists=True)
                j = next(i for i, x in enumerate(prog.adts[CH]["variants"][0]["fields"]) if x["name"] == "cols")
                bad = None
                for v, st in m.outs:
                    if f == "push" and not isok(v):
                        if v[0] == "e" and v[2] == 1:
                            continue
                        raise Undecided("result")
                    new = aslist(m.eng, st, m.eng.read(st, a[1], ((("f", j), None, "cols"),)))
                    if new is None:
                        raise Undecided("names")
                    if len(new) != k + 1:
                        bad = bad or ("leaves %d names" % len(new), st)
                if bad:
                    rep.bad("headers", what, where(b), "%s succeeds but %s" % (what, bad[0]), bad[1].trace(10))
                elif m.outs:
                    rep.ok("headers", what)
            except Undecided as e:
                rep.unk("headers", what, e)
        for f, marker, nl in (("get_head", True, True), ("get_head_short", False, False)):
            what = "%s::%s of %d names" % (CH, f, k)
            try:
                b = prog.bodies.get("%s::%s" % (CH, f))
                if b is None:
                    raise Undecided("no function")
                a, store = libself(prog, b, {"cols": items(prog, CH, "cols", k)})
                args, s2 = libargs(prog, b, {1: a})
                store.update(s2)
                w = LibWorld(prog, files=("F0",))

                def hook(eng, st, call, w=w):
                    if call.callee.fn.endswith("::has_cdx"):
                        return [(TRUE if x else FALSE, s) for x, s in eng.fork_bool(st, eng.norm(st, ("m", "marker", eng.booltype(), ())))]
                    if call.callee.fn in STR:
                        ts = leaf(w, eng, st, call.args[1])
                        st.mon = st.mon + tuple(("k", chr(t)) if kk == "n" else (kk, t) for kk, t in ts)
                        return [(UNIT, st)]
                m = outcomes(prog, b.path, args=args, store=store, lists=True, hook=hook, init=())
                bad = None
                for v, st in m.outs:
                    ts = [("d", "") if kk == "x" and DELIM.search(t) else (kk, t) for kk, t in st.mon]
                    if not ts and (k or nl):
                        raise Undecided("built differently")
                    want = []
                    if marker and st.asm.get("marker") == ("c", 1):
                        want = [("k", " CDX"), ("d", "")]
                    elif marker and st.asm.get("marker") is None and "marker" not in str(st.asm):
                        raise Undecided("marker")
                    for i in range(k):
                        want += [("d", "")] if i else []
                        want += [("x", "item%d" % i)]
                    want += [("k", "\n")] if nl else []
                    got = [(kk, t.rstrip("*") if kk == "x" else t) for kk, t in ts]
                    if got != want:
                        bad = bad or ("is %s" % " ".join(repr(t) if kk == "k" else "<delimiter>" if kk == "d" else t for kk, t in got), st)
                if bad:
                    rep.bad("headers", what, where(b), "%s %s" % (what, bad[0]), bad[1].trace(8))
                elif m.outs:
                    rep.ok("headers", what)
            except Undecided as e:
                rep.unk("headers", what, e)


RULES = [tables, lists, pieces, headers]
