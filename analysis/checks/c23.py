"""C23: pattern matching methods accept exactly the targets they describe."""
import itertools, re
from .. import absint
from ..absint import Undecided, UNIT, TRUE, FALSE, mk
from ..models import RES, OPT, aslist, deep, sub_range
from .c21 import Reg, tables, Content
from .c25 import asbytes, blist
from .c26 import text_hook
from .common import where, par, outcomes

MAKER = "cdx::matcher::MatchMaker"
MATCHER = "cdx::matcher::Matcher"
S = lambda s: ("s", s)
OK = lambda v: ("e", RES, 0, (v,))
BOOL = lambda b: TRUE if b else FALSE


class Panics(Exception):
    pass


def alist(xs):
    return ("it", "list", tuple(xs), 0)


def asc(x, f):
    return x + 32 if f == "to_ascii_lowercase" and 65 <= x <= 90 else x - 32 if f == "to_ascii_uppercase" and 97 <= x <= 122 else x


def listed(eng, st, v):
    """The constants an iterator has yet to give, or None."""
    v = deep(eng, st, v)
    if v[0] == "it" and v[1] == "list":
        xs = [deep(eng, st, x) for x in v[2][v[3]:]]
        if all(x[0] == "c" for x in xs):
            return [x[1] for x in xs]
    return None


def const_hook(eng, st, call):
    """Functions of std on constant texts, bytes and characters."""
    p, nm, a = call.callee.fn or "", call.callee.name, call.args
    std = p.startswith(("core::", "alloc::", "std::"))
    if not std:
        if p == "memchr::memmem::find" or nm == "find" and p.startswith("memchr::"):
            i = asbytes(eng, st, a[0]).find(asbytes(eng, st, a[1]))
            return [(("e", OPT, 1, (("c", i),)) if i >= 0 else ("e", OPT, 0, ()), st)]
        return None
    v = deep(eng, st, a[0]) if a else None
    if p.startswith("core::iter::") and len(a) == 2:
        it = listed(eng, st, a[0])
        if it is not None and nm in ("flat_map", "map") and a[1][0] == "fn":
            f = a[1][1].rsplit("::", 1)[-1]
            if nm == "flat_map" and f in ("to_lowercase", "to_uppercase"):
                return [(alist(("c", ord(y)) for x in it for y in (chr(x).lower() if f == "to_lowercase" else chr(x).upper())), st)]
            if nm == "map" and f in ("to_ascii_lowercase", "to_ascii_uppercase"):
                return [(alist(("c", asc(x, f)) for x in it), st)]
        if it is not None and nm in ("eq", "ne"):
            o = listed(eng, st, a[1])
            if o is not None:
                return [(BOOL((it == o) == (nm == "eq")), st)]
    if p.startswith("core::iter::") and nm in ("position", "rposition") and len(a) == 2:
        loc = eng.deref(a[0])
        if loc is None:
            return None
        it, cb = listed(eng, st, eng.read(st, loc[0], loc[1])), eng.closure_body(st, a[1])
        if it is None or cb is None:
            return None
        ref = eng.p.types[eng.p.bodies[cb[0]].locals[2]]["k"] == "ref"
        for i in (range(len(it)) if nm == "position" else range(len(it) - 1, -1, -1)):
            m = outcomes(eng.p, cb[0], args={1: ("kp", cb[1]) if cb[1] else absint.TOP, 2: ("kp", ("c", it[i])) if ref else ("c", it[i])}, hook=const_hook, lists=True)
            if len(m.outs) != 1 or m.outs[0][0][0] != "c":
                raise Undecided("closure of " + nm)
            if m.outs[0][0][1]:
                return [(("e", OPT, 1, (("c", i),)), st)]
        return [(("e", OPT, 0, ()), st)]
    if p == "core::ops::range::RangeInclusive::<Idx>::new":
        return [(("t", "core::ops::range::RangeInclusive", (a[0], a[1], ("c", 0))), st)]
    if nm == "extend" and len(a) == 2:
        it, loc = listed(eng, st, a[1]), eng.deref(a[0])
        if it is not None and loc is not None and loc[0][0] != "K":
            old = eng.read(st, loc[0], loc[1])
            if old[0] == "s":
                eng.write(st, loc[0], loc[1], S(old[1] + "".join(map(chr, it))))
                return [(UNIT, st)]
            l = aslist(eng, st, old)
            if l is not None:
                eng.write(st, loc[0], loc[1], ("t", None, l + tuple(("c", x) for x in it)))
                return [(UNIT, st)]
    if nm == "clear" and v is not None and v[0] == "s":
        loc = eng.deref(a[0])
        if loc is not None and loc[0][0] != "K":
            eng.write(st, loc[0], loc[1], S(""))
            return [(UNIT, st)]
    if v is not None and v[0] == "c" and len(a) == 1:
        ch = chr(v[1]) if v[1] < 0x110000 else None
        if nm in ("to_lowercase", "to_uppercase") and "char" in p:
            return [(alist(("c", ord(x)) for x in (ch.lower() if nm == "to_lowercase" else ch.upper())), st)]
        if nm in ("to_ascii_lowercase", "to_ascii_uppercase"):
            return [(("c", asc(v[1], nm)), st)]
        if p in ("core::convert::From::from", "core::convert::Into::into"):
            return [(v, st)]
        if nm == "len_utf8":
            return [(("c", len(ch.encode())), st)]
        if nm == "from_u32":
            return [(("e", OPT, 1, (v,)), st)]
        if nm == "is_whitespace":
            return [(BOOL(ch.isspace()), st)]
        if nm == "is_ascii_whitespace":
            return [(BOOL(v[1] in (32, 9, 10, 12, 13)), st)]
    if v is not None and v[0] == "s":
        t = v[1]
        if nm in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase") and len(a) == 1:
            r = t.lower() if nm == "to_lowercase" else t.upper() if nm == "to_uppercase" else "".join(
                c if ord(c) > 127 else c.lower() if nm == "to_ascii_lowercase" else c.upper() for c in t)
            if "[T]" in p or "[u8]" in p:
                return [(blist(r.encode()), st)]
            return [(S(r), st)]
        if nm == "chars" and len(a) == 1:
            return [(alist(("c", ord(x)) for x in t), st)]
        if nm == "char_indices":
            return [(alist(("t", None, (("c", len(t[:i].encode())), ("c", ord(x)))) for i, x in enumerate(t)), st)]
        if nm == "bytes" and len(a) == 1:
            return [(alist(("c", x) for x in t.encode()), st)]
        if nm == "len":
            return [(("c", len(t.encode())), st)]
        if nm == "is_empty":
            return [(BOOL(not t), st)]
        if nm in ("trim", "trim_start", "trim_end") and len(a) == 1:
            return [(S(t.strip() if nm == "trim" else t.lstrip() if nm == "trim_start" else t.rstrip()), st)]
        if nm in ("to_vec", "into_bytes"):
            return [(blist(t.encode()), st)]
        if nm == "as_bytes":
            o = ("O", "bytes:" + t, None)
            st.store[o] = blist(t.encode())
            return [(("r", o, ()), st)]
        if nm in ("as_str", "to_string", "to_owned", "clone", "borrow", "as_ref", "deref", "from", "into", "to_str"):
            return [(v, st)]
        if nm in ("starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix", "find", "eq_ignore_ascii_case", "split_once", "split", "eq", "ne") and len(a) == 2:
            w = deep(eng, st, a[1])
            if w[0] == "c":
                w = S(chr(w[1]))
            if w[0] == "s":
                o = w[1]
                if nm == "starts_with":
                    return [(BOOL(t.startswith(o)), st)]
                if nm == "ends_with":
                    return [(BOOL(t.endswith(o)), st)]
                if nm == "contains":
                    return [(BOOL(o in t), st)]
                if nm in ("eq", "ne"):
                    return [(BOOL((t == o) == (nm == "eq")), st)]
                if nm == "eq_ignore_ascii_case":
                    f = lambda x: "".join(c.lower() if ord(c) < 128 else c for c in x)
                    return [(BOOL(f(t) == f(o)), st)]
                if nm == "find":
                    i = t.encode().find(o.encode())
                    return [(("e", OPT, 1, (("c", i),)) if i >= 0 else ("e", OPT, 0, ()), st)]
                if nm == "split_once":
                    x, s, y = t.partition(o)
                    return [(("e", OPT, 1, (("t", None, (S(x), S(y))),)) if s else ("e", OPT, 0, ()), st)]
                if nm == "split":
                    return [(alist(S(x) for x in t.split(o)), st)]
                x = t[len(o):] if nm == "strip_prefix" and t.startswith(o) else t[:len(t) - len(o)] if nm == "strip_suffix" and t.endswith(o) else None
                return [(("e", OPT, 1, (S(x),)) if x is not None else ("e", OPT, 0, ()), st)]
    if nm in ("eq", "ne") and p.startswith("core::cmp::PartialEq::") and len(a) == 2:
        w = deep(eng, st, a[1])
        if (v[0] == "s" or v[0] == "t" and v[1] is None) and (w[0] == "s" or w[0] == "t" and w[1] is None):
            return [(BOOL((asbytes(eng, st, v) == asbytes(eng, st, w)) == (nm == "eq")), st)]
    if nm in ("starts_with", "ends_with", "eq_ignore_ascii_case") and len(a) == 2 and "[" in p:
        x, y = asbytes(eng, st, a[0]), asbytes(eng, st, a[1])
        if nm == "eq_ignore_ascii_case":
            return [(BOOL(x.lower() == y.lower()), st)]
        return [(BOOL(x.startswith(y) if nm == "starts_with" else x.endswith(y)), st)]
    if nm in ("to_ascii_lowercase", "to_ascii_uppercase") and len(a) == 1:
        x = asbytes(eng, st, a[0])
        return [(blist(x.lower() if nm == "to_ascii_lowercase" else x.upper()), st)]
    if nm in ("to_vec", "to_owned", "into_bytes") and v is not None and v[0] == "t" and v[1] is None:
        return [(v, st)]
    if p == "core::str::converts::from_utf8":
        try:
            return [(OK(S(asbytes(eng, st, a[0]).decode())), st)]
        except UnicodeDecodeError:
            return [(("e", RES, 1, (mk("utf8error"),)), st)]
    return None


def regex_hook(eng, st, call):
    """The regex crate, on constant patterns."""
    p, nm, a = call.callee.fn or "", call.callee.name, call.args
    if not p.startswith("regex::"):
        return None
    if nm == "new":
        t = deep(eng, st, a[0])
        if t[0] != "s":
            return None
        v = ("t", "regex", (t, ("c", 0)))
        return [(OK(v) if "Builder" not in p else v, st)]
    if nm == "case_insensitive":
        loc = eng.deref(a[0])
        b = eng.norm(st, a[1])
        if loc is None or loc[0][0] == "K" or b[0] != "c":
            raise Undecided("regex")
        v = eng.read(st, loc[0], loc[1])
        eng.write(st, loc[0], loc[1], ("t", "regex", (v[2][0], b)))
        return [(a[0], st)]
    if nm == "build":
        return [(OK(deep(eng, st, a[0])), st)]
    if nm == "is_match":
        v = deep(eng, st, a[0])
        if v[0] != "t" or v[1] != "regex":
            raise Undecided("regex")
        t = deep(eng, st, a[1])
        t = t[1] if t[0] == "s" else asbytes(eng, st, t).decode("latin-1")
        return [(BOOL(re.search(v[2][0][1], t, re.I if v[2][1] == ("c", 1) else 0)), st)]
    return None


# ---------------------------------------------------------------------- the descriptions
def low(t, utf8):
    return "".join(c.lower() for c in t) if utf8 else "".join(c.lower() if ord(c) < 128 else c for c in t)


def globs(pat, t, same):
    """Shell glob of * and ?."""
    ok = {0}
    n = len(t)
    for c in pat:
        if c == "*":
            ok = set(range(min(ok), n + 1)) if ok else ok
        else:
            ok = {i + 1 for i in ok if i < n and (c == "?" or same(c, t[i]))}
    return n in ok


def described(spec, pattern, target):
    """Does the target satisfy the description?  None: the request is an error."""
    mods = spec.split(".")
    utf8, case = "utf8" in mods, "case" in mods
    t, pat = target, pattern
    multi = "and" in mods or "or" in mods
    method = [m for m in mods if m not in ("utf8", "not", "trim", "null", "case", "and", "or")]
    method = {"substr": "infix", "substring": "infix", "fileexact": "file-exact"}.get(method[0], method[0]) if method else "regex"
    if multi:
        if not pat:
            return None
        rest = [m for m in mods if m not in ("and", "or", "not")]
        rs = [described(".".join(rest), x, target) for x in pat[1:].split(pat[0])]
        if None in rs:
            return None
        r = all(rs) if "and" in mods else any(rs)
        r = r or "null" in mods and not (t.strip() if "trim" in mods else t)
        return r != ("not" in mods)
    if not utf8:
        t, pat = t.encode().decode("latin-1"), pat.encode().decode("latin-1")
    if "trim" in mods or method in ("blank", "comment", "hash", "slash"):
        t = t.strip(" \t")
    if not t and ("null" in mods or method in ("blank", "comment", "hash", "slash")):
        r = True
    else:
        f = (lambda x: low(x, utf8)) if case else (lambda x: x)
        if method == "prefix":
            r = f(t).startswith(f(pat))
        elif method == "suffix":
            r = f(t).endswith(f(pat))
        elif method == "infix":
            r = f(pat) in f(t)
        elif method == "exact":
            r = f(t) == f(pat)
        elif method == "glob":
            r = globs(pat, t, lambda a, b: f(a) == f(b))
        elif method == "length":
            ps = pattern.split(",")
            if len(ps) > 2 or not all(x.isdigit() for x in ps):
                return None
            r = int(ps[0]) <= len(t) and (len(ps) == 1 or len(t) <= int(ps[1]))
        elif method == "empty":
            r = not t
        elif method == "blank":
            r = not t
        elif method in ("comment", "hash", "slash"):
            r = t.startswith({"comment": pat, "hash": "#", "slash": "//"}[method])
        elif method == "yes":
            r = True
        elif method == "integer":
            r = bool(re.fullmatch(r"-?[0-9]+", t))
        elif method == "number":
            r = bool(re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", t))
        elif method == "float":
            r = bool(re.fullmatch(r"-?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?", t))
        elif method == "ip":
            r = bool(re.fullmatch(r"([0-9]{1,3}\.){3}[0-9]{1,3}", t)) and all(int(x) < 256 for x in t.split("."))
        elif method == "file-exact":
            r = f(t) in [f(x if utf8 else x.encode().decode("latin-1")) for x in pattern.split("/") if x]
        elif method == "regex":
            r = bool(re.search(pat, t, re.I if case else 0))
        else:
            raise Undecided("method " + method)
    return r != ("not" in mods)


class Matchers:
    def __init__(self, prog):
        self.p = prog
        self.reg = Reg(prog)
        self.init = MAKER + "::init"
        if self.init not in prog.bodies:
            raise Undecided("no registry of matchers")
        good = [t for t, st in tables(prog, self.reg, MAKER, self.init) if t is not None]
        if len(good) != 1:
            raise Undecided("content of the tables of matchers")
        self.ct = Content(prog, MAKER, good[0])
        self.made = {}
        self.lines = []
        self.preset = self.reg.preset(MAKER)

    def hook(self, eng, st, call):
        f = call.callee.res or call.callee.fn
        if f == self.init:
            for k, v in self.ct.tabs.items():
                st.store[k] = v
            return [(OK(UNIT), st)]
        if call.callee.name == "to_usize_whole":
            v = deep(eng, st, call.args[0])
            if v[0] == "s":
                return [(OK(("c", int(v[1]))) if v[1].isdigit() else ("e", RES, 1, (mk("error"),)), st)]
        if call.callee.fn == "core::default::Default::default" and f not in self.p.bodies:
            ty = eng.placetype(call.body, call.term["d"])
            t = eng.p.types[ty] if ty is not None else {}
            if t.get("d") == OPT:
                return [(("e", OPT, 0, ()), st)]
            if t.get("s") in ("usize", "u8", "u32", "u64", "isize", "i32", "i64", "bool"):
                return [(("c", 0), st)]
        if call.callee.fn == "alloc::boxed::Box::<T>::new":
            st.mon = st.mon + 1
            o = ("O", "made%d" % st.mon, None)
            st.store[o] = call.args[0]
            return [(("r", o, ()), st)]
        r = self.file_hook(eng, st, call)
        if r is not None:
            return r
        r = regex_hook(eng, st, call) or const_hook(eng, st, call)
        if r is not None:
            return r
        r = self.reg.hook(eng, st, call)
        if r is not None:
            return r
        return text_hook(eng, st, call)

    def file_hook(self, eng, st, call):
        """Reading the lines of a pattern file into a set."""
        c, a = call.callee, call.args
        tgt, p, nm = c.target or "", c.fn or "", c.name
        pos, line = ("O", "position", None), ("O", "line", None)
        at = st.store.get(pos, ("c", 0))[1]
        if tgt.startswith("cdx::util::Reader::"):
            if nm == "new":
                return [(mk("reader"), st)]
            if nm in ("open", "do_split"):
                st.store[pos] = ("c", 0)
                return [(OK(UNIT) if nm == "open" else UNIT, st)]
            if nm == "is_done":
                return [(BOOL(at >= len(self.lines)), st)]
            if nm == "getline":
                st.store[pos] = ("c", at + 1)
                return [(OK(BOOL(at + 1 >= len(self.lines))), st)]
            if nm == "curr":
                return [(mk("current"), st)]
            raise Undecided("Reader::" + nm)
        if tgt == "cdx::util::TextLine::line":
            if at >= len(self.lines):
                raise Panics()
            st.store[line] = blist(self.lines[at])
            return [(("r", line, ()), st)]
        if tgt.startswith("<cdx::util::TextFileMode") or tgt.startswith("cdx::util::TextFileMode"):
            return [(mk("mode"), st)]
        if "HashSet" in p + tgt:
            if nm in ("new", "default", "with_capacity"):
                return [(("t", None, ()), st)]
            if nm in ("insert", "contains"):
                loc = eng.deref(a[0])
                if loc is None:
                    return None
                old, x = eng.read(st, loc[0], loc[1]), asbytes(eng, st, a[1])
                if old[0] != "t":
                    return None
                have = x in [asbytes(eng, st, y) for y in old[2]]
                if nm == "insert" and not have:
                    eng.write(st, loc[0], loc[1], ("t", None, old[2] + (blist(x),)))
                return [(BOOL(have == (nm == "contains")), st)]
        if p == "alloc::string::String::from_utf8":
            return [(OK(S(asbytes(eng, st, a[0]).decode())), st)]
        return None

    def dispatch(self, eng, st, call):
        """The implementation of a trait method for the value of its receiver."""
        c = call.callee
        v = deep(eng, st, call.args[0])
        ty = "str" if v[0] == "s" else "[u8]" if v[0] == "t" and v[1] is None else v[1] if v[0] in ("t", "e") else None
        if ty is None:
            return None
        im = [q for s, q in self.p.impl_of.get("%s::%s" % (c.trait, c.name), []) if s.split("<")[0] == ty and q in self.p.bodies]
        if len(im) == 1:
            return im[0]
        return c.fn if not im and c.fn in self.p.bodies and c.trait.startswith("cdx::") else None

    def run(self, path, args, store):
        if path not in self.p.bodies:
            raise Undecided("no function " + path)
        old = absint.CAP, absint.TERM
        absint.CAP, absint.TERM = 100000, (4000, 400, 4000)
        try:
            m = outcomes(self.p, path, args=args, store={**self.preset, **store}, hook=self.hook, init=0, lists=True, head_k=4000,
                         join_k=10**6, steps=200000, depth=20, dyn=self.dispatch, recursion=4)
        finally:
            absint.CAP, absint.TERM = old
        if m.eng.blind:
            raise Undecided("a branch that is not followed in " + path)
        if not m.outs:
            raise Panics()
        if len(m.outs) != 1:
            raise Undecided("%d outcomes" % len(m.outs))
        return m.eng, m.outs[0][0], m.outs[0][1]

    def make(self, spec, pattern):
        eng, v, st = self.run(MAKER + "::make2", {1: S(spec), 2: S(pattern)}, {})
        v = deep(eng, st, v)
        if v[0] != "e" or v[1] != RES:
            raise Undecided("result of make2")
        return None if v[2] == 1 else (absint.deepval(eng, st, v[3][0]), {k: x for k, x in st.store.items() if k[0] != "L"})

    def match(self, spec, pattern, target, fn="do_match_safe"):
        if (spec, pattern) not in self.made:
            self.made = {(spec, pattern): self.make(spec, pattern)}
        me = self.made[spec, pattern]
        if me is None:
            return None
        root, data = ("O", "matcher", None), ("O", "target", None)
        eng, v, st = self.run(MATCHER + "::" + fn, {1: ("r", root, ()), 2: ("r", data, ())},
                              {**me[1], root: me[0], data: blist(target if isinstance(target, bytes) else target.encode())})
        v = eng.norm(st, v)
        if v[0] != "c":
            raise Undecided("result " + str(v)[:200])
        return bool(v[1])


METHODS = ("prefix", "suffix", "infix", "exact")
UNI = ("\u00e9", "\u00c9", "\u212a", "k", "\u0391\u03a3", "\u03b1\u03c3", "\u0130", "i\u0307x", "\u1e9e", "\u00df", "a\u00e9", "A\u00c9b")


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)


def judge(rep, x, rule, b, spec, patterns, targets):
    for pat in patterns:
        for t in targets:
            what = "%s,%s of %r" % (spec, pat, t)
            try:
                want = described(spec, pat, t)
                x.lines = [l.encode() + b"\n" for l in pat.split("/")] if pat else []
                got = x.match(spec, pat, t)
                if got == want:
                    rep.ok(rule, what)
                elif got is None:
                    rep.bad(rule, spec, where(b), "%s,%s is refused" % (spec, pat))
                elif want is None:
                    rep.bad(rule, spec, where(b), "%s,%s is not refused" % (spec, pat))
                else:
                    rep.bad(rule, spec, where(b), "%s,%s %s %r" % (spec, pat, "matches" if got else "does not match", t))
            except Panics:
                rep.bad(rule, spec, where(b), "%s panics or does not end" % what)
            except Undecided as e:
                rep.unk(rule, what, e)
                if str(e).startswith("no function"):
                    return


def jobs(rep, prog, rule, js):
    """js: [(spec, patterns, targets)]"""
    b = prog.bodies.get(MAKER + "::make2")
    try:
        x = Matchers(prog)
    except Undecided as e:
        return rep.unk(rule, "matchers", e)
    if b is None:
        return rep.unk(rule, "matchers", "no maker")

    def one(j, rep):
        judge(rep, x, rule, b, *j)
        rep.count("specifications")
    par(rep, js, one)


def both(m):
    return (m, m + ".utf8")


def methods(prog, rep, tier):
    rep.rule("methods", "the matcher made for each of prefix, suffix, infix and exact (with and without case, in bytes and in utf8) and each pattern accepts exactly the "
             "targets that start with, end with, contain or are the pattern, up to case where asked")
    n = 2 if tier == "quick" else 3
    pats, ts = list(words("aB", n)), list(words("aAb", 3))
    js = []
    for m in METHODS:
        for c in ("", ".case"):
            for u in ("", ".utf8"):
                js += [(m + c + u, [p], ts) for p in pats] + [(m + c + u, [p], UNI + ("", "a")) for p in UNI]
    jobs(rep, prog, "methods", js)


def glob(prog, rep, tier):
    rep.rule("glob", "a glob matches exactly the targets its stars (any text) and question marks (any one byte, or character with utf8) allow")
    n = 3 if tier == "quick" else 4
    ts = list(words("ab", 4 if tier == "quick" else 5))
    js = [("glob", [p], ts) for p in words("ab*?", n)]
    js += [("glob" + c, [p], ts) for p in ("*a*b", "a*b*", "*ab*", "*a?b*", "a**b", "**", "*?*", "?*?", "*ab", "ab*", "*aab", "*a*a*", "a*a*a", "*ba*ab") for c in ("", ".utf8", ".case.utf8")]
    js += [("glob.case" + u, [p], list(words("aB", 3))) for p in ("*", "A*", "*b", "a?b", "A*B", "*A*", "?B", "ab") for u in ("", ".utf8")]
    js += [("glob" + c + u, [p], UNI) for c in ("", ".case") for u in ("", ".utf8") for p in ("?", "??", "*\u00e9", "\u00c9*", "a?", "?\u03c3", "*\u03a3", "\u00df", "k")]
    js += [("glob", [p], ("x.txt", ".txt", "xy.txt", "x.txtt", "txt", "x.TXT", "a.tar.gz", "")) for p in ("*.txt", "?.txt", "*.*", "*t", "x*", "*x*t", "*.tar.*")]
    jobs(rep, prog, "glob", js)


def kinds(prog, rep, tier):
    rep.rule("kinds", "length, empty, blank, yes, comment, hash, slash, integer, number, float and ip accept exactly the targets their help describes")
    nums = ("", "0", "-1", "12", "1.5", "-0.5", ".5", "5.", "1e3", "1E-3", "1e", "e3", "+1", "--1", "1-", "a1", "1a", "1.2.3", " 1", "1,2", "-", ".", "-.5", "1.5e+10")
    ips = ("1.2.3.4", "0.0.0.0", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "1.2.3.", "a.b.c.d", "1.2.3.999", "01.2.3.4", "192.168.1.1x", "x192.168.1.1", "1..2.3", "249.199.99.9", "")
    txt = ("", " ", "\t ", "a", " a ", "#", " #x", "x#", "//", " // y", "/", "/ /", "; z", "  ;", "z;", "abc", "a b")
    js = []
    for u in ("", ".utf8", ".not"):
        js += [(m + u, [""], nums) for m in ("integer", "number", "float")] + [("ip" + u, [""], ips)]
        js += [(m + u, [""], txt) for m in ("empty", "blank", "yes", "hash", "slash")] + [("comment" + u, [";", "//"], txt)]
        js += [("length" + u, [p], txt + ("\u00e9", "\u00e9a", "aaaa", "aaaaa")) for p in ("0", "1", "2", "0,0", "0,2", "1,3", "2,2", "3,2", "4")]
    js += [("length", [p], ("a",)) for p in ("", "1,2,3", "x", "1,x")]
    jobs(rep, prog, "kinds", js)


def modifiers(prog, rep, tier):
    rep.rule("modifiers", "not, trim, null, case, utf8 and the multi-patterns and, or change what is matched exactly as described, in every combination")
    ts = ("", " ", "a", " a", "a ", "A", "b", "ab", "aB ", "ba", " AB\t", "abab", "Ba")
    js = []
    for m in METHODS + ("glob",):
        for k in range(0, 5):
            for ms in itertools.combinations(("not", "trim", "null", "case", "utf8"), k):
                js.append((".".join((m,) + ms), ["ab", "A", ""] if m != "glob" else ["a*", "*B", "?", ""], ts))
        for mode in ("and", "or"):
            for ms in ((), ("not",), ("case",), ("null",), ("trim", "utf8"), ("not", "null", "trim"), ("case", "utf8", "not")):
                js.append((".".join((mode,) + ms + (m,)), [",a,b", "/a/ab", ";ab", ",", ",a,,b", ""] if m != "glob" else [",a*,*b", ";?;??", ",*"], ts))
    jobs(rep, prog, "modifiers", js)


def listed_in(prog, rep, tier):
    rep.rule("listed_in", "file-exact accepts exactly the targets that are one of the (non-empty) lines of the pattern file, up to case where asked; "
             "first and last lines, repeated and blank ones included")
    ts = ("a", "A", "b", "ab", "aB", "abc", "\u00e9", "\u00c9", "\u212a", "k", "x", "ba", "a ", " a", "ab ", "a\t", "a\r", "#a", "a b")
    js = [("file-exact" + c + u + n, [p], ts) for c in ("", ".case") for u in ("", ".utf8") for n in ("", ".not")
          for p in ("", "a", "a/b", "b/a", "aB/x/a", "ab//b", "/a", "a/", "a/a/b", "x/\u00c9/K", "\u212a/ab", "x/y/z/ab", "aB /x", "a ", " a/b", "x/A\t", "a\r/b", "#a/b", "a b/k")]
    jobs(rep, prog, "listed_in", js)


RULES = [listed_in, methods, glob, kinds, modifiers]
