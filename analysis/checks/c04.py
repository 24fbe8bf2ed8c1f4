"""C04: every advertised option works.

Each tool's main is interpreted with an abstract command line.  The table of options is read from the value that the
tool hands to args::parse (so however it is built); then for every option, and every advertised choice, the tool is
interpreted again with exactly that option present.
"""
import re
from ..world import World, tools, isok, iserr, err
from ..absint import Undecided, deepval, TOP
from .common import outcomes, par

PARSE = "bin::args::parse"
NONE = "\0undeclared"
OPAQUE = ["cdx::sort::SortConfig::sort", "cdx::tabs::show2", "cdx::tabs::show", "cdx::binsearch::BinSearch::run"]


def full(eng, st, v, d=0):
    if d > 6:
        return v
    if v[0] in ("r", "kp", "m"):
        w = deepval(eng, st, v)
        return full(eng, st, w, d + 1) if w != v else w
    if v[0] == "t":
        return ("t", v[1], tuple(full(eng, st, x, d + 1) for x in v[2]))
    return v


def pick(prog, v):
    """Named fields of a struct value."""
    fs = prog.adts[v[1]]["variants"][0]["fields"]
    return {f["name"]: x for f, x in zip(fs, v[2])}


def table(prog, v):
    """[(name, short, value, [choices])] of an abstract slice of ArgSpec, or Undecided."""
    out = []
    if v[0] != "t" or v[1] is not None:
        raise Undecided("option table")
    for e in v[2]:
        if e[0] != "t" or e[1] is None:
            raise Undecided("option table entry")
        d = pick(prog, e)
        if any(d[k][0] != "s" for k in ("name", "short", "value")):
            raise Undecided("option table entry text")
        vals = d["values"]
        if vals[0] != "t" or any(x[0] != "s" for x in vals[2]):
            raise Undecided("choices of --%s" % d["name"][1])
        out.append((d["name"][1], d["short"][1], d["value"][1], [x[1] for x in vals[2]]))
    return out


class Spec(World):
    """Stops at args::parse, keeping the tables given to it."""
    def parse(self, eng, st, call):
        self.prog_spec = full(eng, st, call.args[0])
        self.table = full(eng, st, call.args[1])
        self.site = call.where()
        return [(err("stop"), st)]


def ctor(prog, fn, vals):
    """Field values of the object a constructor with constant arguments makes (None if not one plain struct)."""
    c = prog.__dict__.setdefault("_ctors", {})
    k = (fn, vals)
    if k not in c:
        c[k] = None
        try:
            m = outcomes(prog, fn, args={i + 1: v for i, v in enumerate(vals)}, steps=3000)
            if len(m.outs) == 1 and m.outs[0][0][0] == "t" and m.outs[0][0][1]:
                c[k] = m.outs[0][0][2]
        except Undecided:
            pass
    return c[k]


class Run(World):
    """Records which strings the option's name and value meet."""
    def __init__(self, *a, watch=(), **k):
        super().__init__(*a, **k)
        self.watch = watch      # marker texts
        self.seen = set()
        self.compared = set()
        self.rejected = []
        self.calls = set()
        self.made = {}

    def on_call(self, eng, st, call):
        ms = [self.mention(eng, st, a) for a in call.args]
        for w in self.watch:
            if any(w in m and "'%s'" % w[2:] not in m for m in ms):
                self.seen.add((w, call.callee.fn if call.callee else "?"))
        if len(call.args) == 2 and call.callee and call.callee.name in ("eq", "ne", "eq_ignore_ascii_case"):
            a, b = deepval(eng, st, call.args[0]), deepval(eng, st, call.args[1])
            for x, y in ((a, b), (b, a)):
                if x == ("s", NONE) and y[0] == "s":
                    self.compared.add((y[1], call.where()))
        return super().on_call(eng, st, call)

    def detail(self, eng, st, v, d=0):
        """Like mention, but with enum variants, and leaving out fields that still have the value they were made with."""
        if d > 6:
            return ""
        if v[0] in ("r", "kp"):
            loc = eng.deref(v)
            w = eng.read(st, loc[0], loc[1]) if loc else TOP
            return (eng.locname(*loc) if loc and loc[0][0] == "O" else "") + " " + self.detail(eng, st, w, d + 1)
        if v[0] == "m":
            s = v[1]
            if v[2] is not None and self.p.types[v[2]]["k"] == "ref" and not v[3]:
                loc = eng.deref(v)
                if loc and loc[0] in st.store:
                    s += " " + self.detail(eng, st, eng.read(st, loc[0], loc[1]), d + 1)
            made = self.made.get(v[1])
            for k, x in v[3]:
                if made is not None and k[0] == "f" and k[1] < len(made) and made[k[1]] == x:
                    continue
                s += " %s=%s" % (k, self.detail(eng, st, x, d + 1))
            return s
        if v[0] in ("t", "cl"):
            return " ".join(self.detail(eng, st, x, d + 1) for x in v[2])
        if v[0] == "e":
            return "#%d(%s)" % (v[2], " ".join(self.detail(eng, st, x, d + 1) for x in v[3]))
        return self.mention(eng, st, v, d)

    def rule_call(self, eng, st, call):
        c = call.callee
        ms = [self.detail(eng, st, a) for a in call.args]
        if not any("rec:" in m for m in ms):
            self.calls.add((c.fn, tuple(ms)))
        else:
            # the record itself does not matter here, only how the rule is set up
            self.calls.add((c.fn, tuple(m for m in ms if "rec:" not in m)))
        fn = c.res or c.fn
        vals = [deepval(eng, st, a) for a in call.args]
        if fn in self.p.bodies and all(v[0] == "c" or v[0] == "e" and not v[3] for v in vals):
            r = super().rule_call(eng, st, call)
            made = ctor(self.p, fn, tuple(vals))
            for v, s in r:
                if made is not None and v[0] == "m":
                    self.made[v[1]] = made
            return r
        # a choice handed to the library: is it recognised there?
        if any(v[0] == "s" and v[1] in self.choice for v in vals) and fn in self.p.bodies and \
                all(v[0] in ("s", "c") for v in vals):
            try:
                m = outcomes(self.p, fn, args={i + 1: v for i, v in enumerate(vals)})
                if m.outs and all(iserr(v) for v, s in m.outs) or not m.outs and m.div:
                    self.rejected.append((call.where(), fn))
            except Undecided:
                pass
        return super().rule_call(eng, st, call)

    choice = ()


def spec_of(prog, tool, path):
    c = prog.__dict__.setdefault("_optspec", {})
    if tool not in c:
        w = Spec(prog, opaque=OPAQUE)
        w.table = None
        try:
            w.run(path, steps=4000)
        except Undecided:
            if w.table is None:
                raise
        if w.table is None:
            raise Undecided("%s never parses its arguments" % tool)
        fc = pick(prog, w.prog_spec)["files"]
        files = {"Zero": (), "One": ("F0",), "Many": ("F0", "F1")}.get(
            prog.adts[fc[1]]["variants"][fc[2]]["name"] if fc[0] == "e" else "Many", ("F0", "F1"))
        c[tool] = (table(prog, w.table), files, w.site)
    return c[tool]


def run(prog, path, files, options, watch=(), choice=(), steps=30000):
    last = None
    for fs in ((files, files[:1]) if len(files) > 1 else (files,)):
        for shapes in ((0, 1, 2), (1, 2), (2,), (1,)):
            w = Run(prog, files=fs, shapes=shapes, options=options, opaque=OPAQUE, watch=watch)
            w.choice = choice
            try:
                w.run(path, steps=steps)
                w.bound = (fs, shapes)
                return w
            except Undecided as e:
                last = e
                w.bound = None
    raise last


def cased(v):
    return list(dict.fromkeys([v, v.lower(), v.upper()]))


PANIC = re.compile(r"panick|unreachable|begin_panic|unwrap_failed|expect_failed|option::expect|process::abort")


def panics(w):
    return [(c, s) for c, s in w.div if c.callee is None or PANIC.search(c.callee.fn)]


def fingerprint(w):
    fp = set(w.calls)
    for v, st in w.exits:
        fp.add((w.eng.nm(v) if not isok(v) else "ok", st.mon[1],
                frozenset((k, a) for k, a in st.asm.items() if k.startswith("q:"))))
    return frozenset(fp)


def options_work(prog, rep, tier):
    """For every tool and every option in its table (with every advertised choice, in any letter case): no path of the
    tool with that option present reaches a panic or 'unreachable'; every choice is recognised by whatever function it
    is handed to; an option that takes a value has that value used; one that takes none never has a value used; and the
    run differs from the run without the option."""
    par(rep, jobs(prog, rep), lambda j, r: one_tool(prog, r, *j))


def jobs(prog, rep):
    out = []
    for tool, path in tools(prog).items():
        try:
            tab, files, site = spec_of(prog, tool, path)
        except Undecided as e:
            rep.unk("options_work", tool, e)
            continue
        rep.count("tools")
        out += [(tool, path, files, site, [t], tab) for t in tab] or [(tool, path, files, site, [], tab)]
    return out


def others(tab, name):
    """Other options that an option may need in order to matter."""
    for n, short, value, choices in tab:
        if n != name:
            for v in choices or [None]:
                yield (n, v)


def telling(w, files):
    """Fewer files than usual say nothing about a tool that rejects that many."""
    return w.bound[0] == files or any(isok(v) for v, st in w.exits)


def differs(prog, path, files, other, opt):
    try:
        a, b = run(prog, path, files, (other,)), run(prog, path, files, (other, opt))
    except Undecided:
        return True
    return not telling(a, files) or a.bound != b.bound or fingerprint(a) != fingerprint(b)


def one_tool(prog, rep, tool, path, files, site, tab, whole):
    try:
        base = run(prog, path, files, ())
    except Undecided as e:
        base = None
    if base:
        for c, st in panics(base):
            rep.bad("options_work", "%s:abort" % tool, c.where(), "%s aborts with no options given" % tool, st.trace(12))
    for name, short, value, choices in tab:
        rep.count("options")
        vals = [None] if not choices else [x for c in choices for x in cased(c)]
        prints = {}
        failed = False
        for v in vals:
            label = "%s --%s%s" % (tool, name, "=" + v if v else "")
            mark = "V:" + name
            try:
                w = run(prog, path, files, ((name, v),), watch=(mark,), choice=cased(v) if v else ())
            except Undecided as e:
                rep.unk("options_work", label, e)
                continue
            rep.count("option runs")
            ps = panics(w)
            # an abort that also happens without the option has been reported already
            if base:
                known = {c.where() for c, s in panics(base)}
                ps = [x for x in ps if x[0].where() not in known]
            for c, st in ps:
                failed = True
                rep.bad("options_work", "%s:%s:abort" % (tool, name), c.where(),
                        "giving %s leads to an abort" % label, st.trace(14))
            for wh, fn in w.rejected:
                failed = True
                rep.bad("options_work", "%s:%s:%s:rejected" % (tool, name, (v or "").lower()), wh,
                        "%s is advertised but %s does not accept it" % (label, fn))
            if v is None:
                used = {f for m, f in w.seen if m == mark}
                if value == "" and used:
                    failed = True
                    rep.bad("options_work", "%s:%s:value" % (tool, name), site,
                            "--%s takes no value but its value is used (%s)" % (name, sorted(used)[0]))
                if value != "" and not used and not ps:
                    failed = True
                    rep.bad("options_work", "%s:%s:ignored" % (tool, name), site,
                            "the value given to %s --%s is never looked at" % (tool, name))
            prints[v] = (w, fingerprint(w))
        if failed:
            continue
        if base is not None and not choices and prints.get(None):
            w, fp = prints[None]
            if w.bound == base.bound and telling(w, files) and fp == fingerprint(base) and \
                    not any(differs(prog, path, files, o, (name, None)) for o in others(whole, name)):
                rep.bad("options_work", "%s:%s:noeffect" % (tool, name), site,
                        "%s --%s changes nothing" % (tool, name))
                continue
        seen = {}
        for v, (w, fp) in prints.items():
            if v is None or not telling(w, files):
                continue
            k = (w.bound, re.sub(r"'%s'" % re.escape(v), "''", repr(sorted(map(repr, fp)))))
            o = seen.setdefault(k, v.lower())
            if o != v.lower():
                failed = True
                rep.bad("options_work", "%s:%s:%s:same" % (tool, name, v.lower()), site,
                        "%s --%s=%s does exactly the same as --%s=%s" % (tool, name, v, name, o))
        if not failed and prints:
            rep.ok("options_work", "%s --%s (%d runs)" % (tool, name, len(prints)))


def handlers_declared(prog, rep, tier):
    """Every text that a tool compares an option name with is the name of an option in its table; names and short
    forms are unambiguous within a tool and the options common to all tools."""
    try:
        glob = global_table(prog)
    except Undecided as e:
        rep.unk("handlers_declared", "common options", e)
        glob = []
    for tool, path in tools(prog).items():
        try:
            tab, files, site = spec_of(prog, tool, path)
            w = run(prog, path, files, ((NONE, None),))
        except Undecided as e:
            rep.unk("handlers_declared", tool, e)
            continue
        names = {t[0] for t in tab}
        bad = False
        for txt, wh in sorted(w.compared):
            if txt not in names:
                bad = True
                rep.bad("handlers_declared", "%s:%s" % (tool, txt), wh,
                        "%s handles an option '%s' that cannot be given" % (tool, txt))
        alln = [t[0] for t in tab] + [t[0] for t in glob] + ["std-help", "input_files"]
        alls = [t[1][0] for t in tab + glob if t[1]]
        for n in sorted({x for x in alln if alln.count(x) > 1}):
            bad = True
            rep.bad("handlers_declared", "%s:%s:twice" % (tool, n), site, "%s has two options named --%s" % (tool, n))
        for n in sorted({x for x in alls if alls.count(x) > 1}):
            bad = True
            rep.bad("handlers_declared", "%s:-%s:twice" % (tool, n), site, "%s has two options -%s" % (tool, n))
        for t in tab:
            if len(t[1]) > 1:
                bad = True
                rep.bad("handlers_declared", "%s:%s:short" % (tool, t[0]), site,
                        "short form '%s' of --%s cannot be given" % (t[1], t[0]))
        if not bad:
            rep.ok("handlers_declared", "%s: %d texts compared" % (tool, len(w.compared)))


def global_table(prog):
    m = outcomes(prog, "bin::globals::global_args")
    if len(m.outs) != 1:
        raise Undecided("global_args")
    v, st = m.outs[0]
    return table(prog, full(m.eng, st, v))


def common_options(prog, rep, tier):
    """The options common to all tools: each is acted on without abort, and only those are waited for."""
    path = "bin::globals::Settings::consume"
    try:
        tab = global_table(prog)
    except Undecided as e:
        rep.unk("common_options", "table", e)
        return
    b = prog.bodies.get(path)
    if b is None:
        rep.unk("common_options", path, "not found")
        return
    adt = "bin::args::ArgValue"
    fs = prog.adts[adt]["variants"][0]["fields"]

    def one(name):
        w = Run(prog, files=(), watch=("V:" + name,), opaque=OPAQUE)
        d = {"name": ("s", name), "value": ("m", "V:" + name, None, ()), "index": ("c", 0)}
        av = ("t", None, (("t", adt, tuple(d.get(f["name"], TOP) for f in fs)),))
        from ..absint import mk
        root = ("O", "args", None)
        w.run(path, args={1: mk("self", b.locals[1]), 2: ("r", root, ())}, store={root: av}, steps=20000)
        return w
    try:
        w = one(NONE)
        for txt, wh in sorted(w.compared):
            if txt not in {t[0] for t in tab}:
                rep.bad("common_options", txt, wh, "an option '%s' is handled that cannot be given" % txt)
            else:
                rep.ok("common_options", "handler for --%s" % txt)
    except Undecided as e:
        rep.unk("common_options", "handlers", e)
    for name, short, value, choices in tab:
        try:
            w = one(name)
        except Undecided as e:
            rep.unk("common_options", "--" + name, e)
            continue
        rep.count("options")
        ps = panics(w)
        if ps:
            rep.bad("common_options", name + ":abort", ps[0][0].where(), "giving --%s leads to an abort" % name,
                    ps[0][1].trace(10))
            continue
        used = {f for m, f in w.seen}
        if bool(value) != bool(used):
            rep.bad("common_options", name + ":value", path,
                    "--%s %s" % (name, "ignores its value" if value else "takes no value but a value is used"))
            continue
        if not w.calls:
            rep.bad("common_options", name + ":noeffect", path, "--%s does nothing" % name)
            continue
        rep.ok("common_options", "--" + name)


RULES = [options_work, handlers_declared, common_options]
