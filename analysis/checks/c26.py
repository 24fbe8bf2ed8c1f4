"""C26: expressions have the value their operators, functions, precedence and associativity give them."""
import itertools, math, re
from .. import absint
from ..absint import Undecided, UNIT, TRUE, FALSE, mk
from ..models import RES, OPT, aslist, deep, sub_range
from .common import where, par, outcomes, enumval, adt_ty

EX = "cdx::expr::Expr"
TOKENIZE = "cdx::tok2::tokenize"
RPN = "cdx::shunting_yard::to_rpn"
S = lambda s: ("s", s)
NUM = re.compile(r"[0-9]+(\.[0-9]*)?([eE][-+]?[0-9]+)?|\.[0-9]+([eE][-+]?[0-9]+)?")


def fl(x):
    return ("m", "fl:%s" % repr(float(x)), None, ())


def text_hook(eng, st, call):
    """Text constants: slices, growing strings, and the number at the start of a text."""
    p, nm = call.callee.fn or "", call.callee.name
    if nm in ("shrink_to_fit", "reserve") and p.startswith("alloc::"):
        return [(UNIT, st)]
    if p in ("core::convert::AsRef::as_ref", "core::ops::deref::Deref::deref", "alloc::string::String::as_str"):
        v = deep(eng, st, call.args[0])
        if v[0] == "s":
            return [(v, st)]
        return [(call.args[0], st)] if nm == "as_ref" else None
    if p == "alloc::string::String::new":
        return [(S(""), st)]
    if nm == "default" and call.callee.res not in eng.p.bodies:
        ty = eng.placetype(call.body, call.term["d"])
        d = eng.p.types[ty].get("d") if ty is not None else None
        if d == "alloc::vec::Vec":
            return [(("t", None, ()), st)]
        if d == "alloc::string::String":
            return [(S(""), st)]
    if p in ("alloc::string::String::push", "alloc::string::String::push_str"):
        loc = eng.deref(call.args[0])
        if loc is None or loc[0][0] == "K":
            return None
        old, more = eng.read(st, loc[0], loc[1]), deep(eng, st, call.args[1])
        if more[0] == "c":
            more = S(chr(more[1]))
        if old[0] == "s" and more[0] == "s":
            eng.write(st, loc[0], loc[1], S(old[1] + more[1]))
            return [(UNIT, st)]
        return None
    if p == "core::ops::index::Index::index":
        v, i = deep(eng, st, call.args[0]), call.args[1]
        if v[0] == "s" and i[0] == "t" and i[1]:
            raw = v[1].encode()
            r = sub_range(i, len(raw))
            if r is not None:
                return [(S(raw[r[0]:r[1]].decode()), st)]
        return None
    if nm == "to_f64":
        v = deep(eng, st, call.args[0])
        if v[0] == "s":
            m = NUM.match(v[1])
            n = m.end() if m else 0
            return [(("t", None, (fl(v[1][:n] or 0), S(v[1][n:]))), st)]
        n = eng.nm(v) or ""
        m = re.match(r"col([vw]\d+)\**$", n)
        return [(("t", None, (mk(m.group(1)), mk("rest"))), st)] if m else None
    if p.startswith("core::ops::arith::") and nm in ("add", "sub", "mul", "div", "rem") and len(call.args) == 2:
        a, b = deep(eng, st, call.args[0]), deep(eng, st, call.args[1])
        if a[0] == "c" and b[0] == "c" and nm in ("add", "sub", "mul"):
            r = a[1] + b[1] if nm == "add" else a[1] - b[1] if nm == "sub" else a[1] * b[1]
            return [(("c", r), st)] if r >= 0 else None
        na, nb = eng.nm(a), eng.nm(b)
        return [(mk("%s(%s,%s)" % (nm, na, nb)), st)] if na and nb else None
    if p == "alloc::vec::Vec::<T, A>::resize":
        loc = eng.deref(call.args[0])
        if loc is None or loc[0][0] == "K":
            return None
        old, n = aslist(eng, st, eng.read(st, loc[0], loc[1])), call.args[1]
        if old is None or n[0] != "c" or n[1] > 60:
            return None
        eng.write(st, loc[0], loc[1], ("t", None, (old + (call.args[2],) * n[1])[:n[1]]))
        return [(UNIT, st)]
    return None


def pattern(prog):
    """The pattern by which expressions recognise a column number."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("str"), str):
                out.add(x["str"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for p, b in prog.bodies.items():
        if "cdx::expr::" not in p:
            continue
        if any(isinstance(bb["t"].get("f"), dict) and (bb["t"]["f"].get("fn") or "").startswith("regex::")
               and bb["t"]["f"]["fn"].endswith("::new") for bb in b.bbs):
            walk(b.bbs)
    return out.pop() if len(out) == 1 else None


def line_hook(prog, fact=True, prefix=("v",)):
    pat = pattern(prog)

    def hook(eng, st, call):
        r = text_hook(eng, st, call)
        if r is not None:
            return r
        nm, tgt = call.callee.name, call.callee.target or ""
        if fact and nm == "factorial" and len(call.args) == 1:
            n = eng.nm(call.args[0])
            return [(mk("fact(%s)" % n), st)] if n else None
        if nm == "captures":
            v = deep(eng, st, call.args[1])
            if v[0] != "s" or pat is None:
                return None
            m = re.search(pat, v[1])
            if not m:
                return [(("e", OPT, 0, ()), st)]
            return [(("e", OPT, 1, (("t", None, tuple(S(x or "") for x in (m.group(0),) + m.groups())),)), st)]
        if nm == "get" and tgt.startswith("regex::"):
            v, i = deep(eng, st, call.args[0]), call.args[1]
            if v[0] == "t" and i[0] == "c" and i[1] < len(v[2]):
                return [(("e", OPT, 1, (v[2][i[1]],)), st)]
        if nm == "as_str" and tgt.startswith("regex::"):
            return [(deep(eng, st, call.args[0]), st)]
        if nm == "to_usize_whole":
            v = deep(eng, st, call.args[0])
            if v[0] == "s":
                return [(("e", RES, 0, (("c", int(v[1])),)) if v[1].isdigit() else ("e", RES, 1, (mk("error"),)), st)]
        if tgt == "cdx::util::TextLine::get" or nm == "get_col" and tgt.startswith("cdx::"):
            i = call.args[1]
            if i[0] == "c":
                return [(mk("col%s%d" % (prefix[0], i[1])), st)]
            return None
        return None
    return hook


def run(prog, path, args, store, hook=text_hook, asm=None):
    if path not in prog.bodies:
        raise Undecided("no function " + path)
    old = absint.CAP, absint.TERM
    absint.CAP, absint.TERM = 100000, (4000, 400, 4000)
    try:
        m = outcomes(prog, path, args=args, store=store, asm=dict(asm or {}), hook=hook, lists=True, head_k=4000, join_k=10**6, steps=300000)
    finally:
        absint.CAP, absint.TERM = old
    if m.eng.blind:
        raise Undecided("a branch that is not followed in " + path)
    return m


def single(m, what):
    if len(m.outs) != 1:
        raise Undecided("%s has %d outcomes" % (what, len(m.outs)))
    return m.eng, m.outs[0][0], m.outs[0][1]


class Expr:
    """The life of one expression, interpreted: new, lookup of its variables among the columns, eval on a record."""

    def __init__(self, prog):
        self.p = prog
        self.ty = adt_ty(prog, EX)
        self.root = ("O", "expr", self.ty)
        self.prefix = ["v"]
        self.hook = line_hook(prog, prefix=self.prefix)

    def steps(self, text, plan):
        """Values of evals after a history of steps: ("lookup", names), ("eval", entry point, prefix of the unknowns)."""
        m = run(self.p, EX + "::new", {1: S(text)}, {}, self.hook)
        live = [(v[3][0], (), st.asm) for v, st in m.outs if v[0] == "e" and v[2] == 0]
        eng = m.eng
        for step in plan:
            nxt = []
            for me, vals, asm in live:
                if step[0] == "lookup":
                    names = ("O", "names", None)
                    m = run(self.p, EX + "::lookup", {1: ("r", self.root, ()), 2: ("r", names, ())},
                            {self.root: me, names: ("t", None, tuple(S(c) for c in step[1]))}, self.hook, asm)
                else:
                    self.prefix[0] = step[2]
                    try:
                        m = run(self.p, EX + "::" + step[1], {1: ("r", self.root, ()), 2: mk("line")}, {self.root: me}, self.hook, asm)
                    finally:
                        self.prefix[0] = "v"
                if m.div:
                    raise Undecided("may panic")
                eng = m.eng
                for v, st in m.outs:
                    if step[0] == "lookup":
                        if v[0] != "e" or v[2] != 0:
                            raise Undecided("lookup fails")
                        nxt.append((m.eng.read(st, self.root, ()), vals, st.asm))
                    else:
                        nxt.append((m.eng.read(st, self.root, ()), vals + (v,), st.asm))
                    last = st
            live = nxt
        return [(vals, eng, last) for me, vals, asm in live]

    def values(self, text, cols=None, line=False):
        """[(value or None if an error is reported, engine, state)]"""
        m = run(self.p, EX + "::new", {1: S(text)}, {}, self.hook)
        out = []
        for v, st in m.outs:
            if v[0] != "e" or v[2] != 0:
                out.append((None, m.eng, st))
                continue
            store = {self.root: v[3][0]}
            if cols is None:
                m2 = run(self.p, EX + "::eval_plain", {1: ("r", self.root, ())}, store, self.hook, st.asm)
                for v2, st2 in m2.outs:
                    if v2[0] != "e":
                        raise Undecided("result of eval_plain")
                    out.append((v2[3][0] if v2[2] == 0 else None, m2.eng, st2))
                continue
            names = ("O", "names", None)
            m2 = run(self.p, EX + "::lookup", {1: ("r", self.root, ()), 2: ("r", names, ())},
                     {self.root: v[3][0], names: ("t", None, tuple(S(c) for c in cols))}, self.hook, st.asm)
            for v2, st2 in m2.outs:
                if v2[0] != "e":
                    raise Undecided("result of lookup")
                if v2[2] != 0:
                    out.append((None, m2.eng, st2))
                    continue
                store = {self.root: m2.eng.read(st2, self.root, ())}
                m3 = run(self.p, EX + ("::eval_line" if line else "::eval"), {1: ("r", self.root, ()), 2: mk("line")}, store, self.hook, st2.asm)
                for v3, st3 in m3.outs:
                    out.append((v3, m3.eng, st3))
                if m3.div:
                    out.append(("panic", m3.eng, m3.div[0][1]))
            if m2.div:
                out.append(("panic", m2.eng, m2.div[0][1]))
        return out


# ------------------------------------------------------------------ reference
BIN = {"<": 1, ">": 1, "==": 1, "!=": 1, "<=": 1, ">=": 1, "+": 2, "-": 2, "*": 3, "/": 3, "%": 3}
TOKEN = re.compile(r"([A-Za-z][A-Za-z0-9_]*)|([0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?)|(<=|>=|==|!=|[-+*/%^<>!(),])")


class Parser:
    """Reference grammar: comparisons, then + -, then * / %, then signs, then ^ (to the right), then !; all else to the left."""

    def __init__(self, text):
        self.t, i = [], 0
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise ValueError(text)
            self.t.append(m)
            i = m.end()
        self.i = 0

    def peek(self):
        return self.t[self.i].group(0) if self.i < len(self.t) else None

    def take(self):
        self.i += 1
        return self.t[self.i - 1]

    def expr(self, level=1):
        if level > 3:
            return self.sign()
        x = self.expr(level + 1)
        while BIN.get(self.peek()) == level:
            op = self.take().group(0)
            x = (op, x, self.expr(level + 1))
        return x

    def sign(self):
        if self.peek() in ("+", "-"):
            op = self.take().group(0)
            x = self.sign()
            return ("neg", x) if op == "-" else x
        x = self.post()
        if self.peek() == "^":
            self.take()
            x = ("^", x, self.sign())
        return x

    def post(self):
        x = self.atom()
        while self.peek() == "!":
            self.take()
            x = ("fact", x)
        return x

    def atom(self):
        m = self.take()
        if m.group(2):
            return ("fl", float(m.group(2)))
        if m.group(1):
            if self.peek() == "(":
                self.take()
                args = [self.expr()]
                while self.peek() == ",":
                    self.take()
                    args.append(self.expr())
                assert self.take().group(0) == ")"
                return ("call", m.group(1)) + tuple(args)
            return ("name", m.group(1))
        assert m.group(0) == "("
        x = self.expr()
        assert self.take().group(0) == ")"
        return x


def reference(text):
    p = Parser(text)
    x = p.expr()
    assert p.i == len(p.t), text
    return x


# names under which the standard library and libm compute a function (the first is the canonical one)
SAME = {n: [n] for n in ("acos acosh asin asinh atan atan2 atanh cbrt ceil copysign cos cosh erf exp exp2 exp10 fdim floor hypot "
                         "j0 j1 jn ldexp lgamma log1p log2 log10 nextafter remainder round scalbn sin sinh sqrt tan tanh tgamma "
                         "trunc y0 y1 yn").split()}
SAME.update({"expm1": ["expm1", "exp_m1"], "fabs": ["fabs", "abs"], "abs": ["abs", "fabs"], "fma": ["fma", "mul_add"],
             "fmax": ["fmax", "max"], "fmin": ["fmin", "min"], "fmod": ["fmod", "rem"], "log": ["log", "ln"], "pow": ["pow", "powf"]})
SAME["log1p"] = ["log1p", "ln_1p"]
ARITY = {n: 1 for n in SAME}
ARITY.update({n: 2 for n in "atan2 copysign fmin fdim fmax fmod hypot jn ldexp nextafter remainder scalbn pow yn".split()})
ARITY["fma"] = 3
CANON = {}
for _n, _v in SAME.items():
    for _x in _v:
        CANON.setdefault(_x, _v[0])
CANON.update({"abs": "abs", "fabs": "abs", "powf": "pow", "pow": "pow", "powi": "powi", "rem": "fmod", "fmod": "fmod", "max": "fmax", "min": "fmin",
              "add": "add", "sub": "sub", "mul": "mul", "div": "div", "neg": "neg", "fact": "fact"})
CONSTS = {"pi": math.pi, "e": math.e, "M_E": math.e, "M_LOG2E": math.log2(math.e), "M_LOG10E": math.log10(math.e),
          "M_LN2": math.log(2), "M_LN10": math.log(10), "M_PI": math.pi, "M_PI_2": math.pi / 2, "M_PI_4": math.pi / 4,
          "M_1_PI": 1 / math.pi, "M_2_PI": 2 / math.pi, "M_2_SQRTPI": 2 / math.sqrt(math.pi), "M_SQRT2": math.sqrt(2),
          "M_SQRT1_2": math.sqrt(0.5), "M_INF": math.inf, "M_NEG_INF": -math.inf, "M_MAX": 1.7976931348623157e308,
          "M_MIN": -1.7976931348623157e308, "M_MIN_POS": 2.2250738585072014e-308}


def tree(s):
    """Canonical tree of a term of the interpretation; Undecided for anything that is not arithmetic on the variables."""
    i = 0

    def parse():
        nonlocal i
        j = i
        depth = 0
        while j < len(s) and (depth or s[j] not in ",()"):
            depth += (s[j] == "<") - (s[j] == ">")
            j += 1
        head = s[i:j].strip()
        i = j
        if i < len(s) and s[i] == "(":
            i += 1
            args = []
            while True:
                args.append(parse())
                if i >= len(s):
                    raise Undecided("term " + s)
                i += 1
                if s[i - 1] == ")":
                    break
            h = CANON.get(head.rsplit("::", 1)[-1])
            if h is None:
                raise Undecided("term " + s[:80])
            return norm((h,) + tuple(args))
        if head.startswith("fl:"):
            return ("fl", float(head[3:]))
        if re.fullmatch(r"-?\d+(\.\d+)?", head):
            return ("fl", float(head))
        if re.fullmatch(r"[vw]\d+", head):
            return ("v", head)
        raise Undecided("term " + s[:80])
    t = parse()
    if i != len(s):
        raise Undecided("term " + s[:80])
    return t


def norm(t):
    """IEEE identities only: the order of the operands of + and *, where the sign of a product, quotient or remainder is
    applied, and 0 + x."""
    if t[0] in ("mul", "div") and len(t) == 3:
        neg = 0
        a = list(t[1:])
        for i in (0, 1):
            if a[i][0] == "neg":
                a[i], neg = a[i][1], neg + 1
            elif a[i][0] == "fl" and a[i][1] < 0:
                a[i], neg = ("fl", -a[i][1]), neg + 1
        if neg:
            r = norm((t[0],) + tuple(a))
            return ("neg", r) if neg == 1 else r
    if t[0] == "fmod" and len(t) == 3:
        a, b = t[1:]
        b = b[1] if b[0] == "neg" else ("fl", abs(b[1])) if b[0] == "fl" else b
        if a[0] == "neg":
            return ("neg", ("fmod", a[1], b))
        return ("fmod", a, b)
    if t[0] == "neg" and t[1][0] == "neg":
        return t[1][1]
    if t[0] in ("add", "mul") and len(t) == 3:
        if t[0] == "add" and ("fl", 0.0) in t[1:]:
            return t[2] if t[1] == ("fl", 0.0) else t[1]
        return (t[0],) + tuple(sorted(t[1:], key=repr))
    if t[0] in ("fmax", "fmin"):
        return (t[0],) + tuple(sorted(t[1:], key=repr))
    if t[0] == "neg" and t[1][0] == "fl":
        return ("fl", -t[1][1])
    return t


class Order:
    """What a path knows about the order of terms."""

    def __init__(self, facts):
        self.le, self.lt, self.ne = set(), set(), set()
        for (k, a, b), yes in facts:
            self.learn(k, a, b, yes)

    def copy(self):
        o = Order(())
        o.le, o.lt, o.ne = set(self.le), set(self.lt), set(self.ne)
        return o

    def learn(self, k, a, b, yes):
        if k == "lt":
            (self.lt if yes else self.le).add((a, b) if yes else (b, a))
        elif yes:
            self.le |= {(a, b), (b, a)}
        else:
            self.ne |= {(a, b), (b, a)}

    def closure(self):
        ts = {x for p in self.le | self.lt | self.ne for x in p}
        cs = [t for t in ts if t[0] == "fl"]
        d = {(a, b): 1 for a, b in self.lt}
        for a, b in self.le:
            d.setdefault((a, b), 0)
        for a in cs:
            for b in cs:
                if a[1] <= b[1] and a != b:
                    d[a, b] = max(d.get((a, b), 0), int(a[1] < b[1]))
        for k in ts:
            for a in ts:
                if (a, k) in d:
                    for b in ts:
                        if (k, b) in d:
                            v = max(d[a, k], d[k, b])
                            if d.get((a, b), -1) < v:
                                d[a, b] = v
        return d, ts

    def feasible(self):
        d, ts = self.closure()
        if any(d.get((t, t), 0) for t in ts):
            return False
        for a, b in self.ne:
            if a == b or ((a, b) in d and (b, a) in d):
                return False
        return not any(a[0] == b[0] == "fl" and a[1] > b[1] for a, b in d)

    def decide(self, k, a, b):
        """True / False / None"""
        if a == b:
            return k == "eq"
        if a[0] == b[0] == "fl":
            return a[1] < b[1] if k == "lt" else a[1] == b[1]
        r = []
        for yes in (True, False):
            o = self.copy()
            o.learn(k, a, b, yes)
            if o.feasible():
                r.append(yes)
        return r[0] if len(r) == 1 else None

    def same(self, a, b):
        if a == b or self.decide("eq", a, b) is True:
            return True
        return a[0] == b[0] and a[0] not in ("fl", "v") and len(a) == len(b) and all(self.same(x, y) for x, y in zip(a[1:], b[1:]))


class Need(Exception):
    pass


def evaluate(t, env, order):
    """Value of a reference tree; raises Need(kind, a, b) for an order the path has not established."""
    def ask(k, a, b):
        r = order.decide(k, a, b)
        if r is None:
            raise Need(k, a, b)
        return r
    one = lambda b: ("fl", 1.0 if b else 0.0)
    k = t[0]
    if k == "fl":
        return t
    if k == "name":
        if t[1] in env:
            return ("v", env[t[1]])
        if t[1] in CONSTS:
            return ("fl", CONSTS[t[1]])
        raise KeyError(t[1])
    ev = lambda x: evaluate(x, env, order)
    if k == "call":
        f = t[1]
        if f == "if":
            return ev(t[4] if ask("eq", ev(t[2]), ("fl", 0.0)) else t[3])
        args = [ev(x) for x in t[2:]]
        if f in ("max", "min"):
            v = args[0]
            for x in args[1:]:
                if ask("lt", v, x) if f == "max" else ask("lt", x, v):
                    v = x
            return v
        if f == "avg":
            v = args[0]
            for x in args[1:]:
                v = norm(("add", v, x))
            return ("div", v, ("fl", float(len(args))))
        return norm((CANON[f],) + tuple(args))
    a = ev(t[1])
    if k in ("neg", "fact"):
        return norm((k, a))
    b = ev(t[2])
    if k in BIN and BIN[k] == 1:
        if k in ("==", "!="):
            return one(ask("eq", a, b) == (k == "=="))
        if k in ("<", ">="):
            return one(ask("lt", a, b) == (k == "<"))
        return one(ask("lt", b, a) == (k == ">"))
    return norm(({"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "fmod", "^": "pow"}[k], a, b))


def expected(t, env, order, deep=0):
    """All values the reference may have on a path, with the order each supposes."""
    if deep > 8:
        raise Undecided("orders")
    try:
        return [(evaluate(t, env, order), order)]
    except Need as e:
        out = []
        for yes in (True, False):
            o = order.copy()
            o.learn(*e.args, yes)
            if o.feasible():
                out += expected(t, env, o, deep + 1)
        return out


def facts_of(st):
    out = []
    for k, v in st.asm.items():
        if k.startswith(("lt(", "eq(")) and v[0] == "c":
            try:
                a, b = two(k)
            except Undecided:
                continue
            out.append(((k[:2], a, b), bool(v[1])))
    return out


def two(k):
    depth, body = 0, k[3:-1]
    for i, c in enumerate(body):
        depth += (c in "(<") - (c in ")>")
        if c == "," and not depth:
            return tree(body[:i]), tree(body[i + 1:])
    raise Undecided(k)


def pretty(t):
    if t[0] == "fl":
        return repr(t[1])
    if t[0] == "v":
        return t[1]
    return "%s(%s)" % (t[0], ", ".join(pretty(x) for x in t[1:]))


COLS = ["a", "b", "c", "d"]
ENV = {n: "v%d" % i for i, n in enumerate(COLS)}
ENV.update({"c%d" % (i + 1): "v%d" % i for i in range(4)})


def judge(text, outs, env=ENV):
    """A complaint about the outcomes of an expression, or None."""
    want = reference(text)
    seen = 0
    for v, eng, st in outs:
        order = Order(facts_of(st))
        if not order.feasible():
            continue
        if v == "panic":
            raise Undecided("may panic")
        seen += 1
        if v is None:
            return "%s is refused" % text, st
        n = eng.nm(v)
        if n is None:
            raise Undecided("value that is not followed")
        got = tree(n)
        for w, o in expected(want, env, order):
            if not o.same(got, w):
                return "%s has the value %s instead of %s" % (text, pretty(got), pretty(w)), st
    if not seen:
        raise Undecided("no outcome")
    return None


OPS = ["+", "-", "*", "/", "%", "^", "<", ">", "==", "!=", "<=", ">="]
REP = ["+", "-", "*", "/", "^", "<", "=="]


def texts(tier):
    out = ["a", "(a)", "((a))", "-a", "+a", "--a", "-+a", "-(a)", "(-a)", "a!", "-a!", "a!!", "(a)!", "(-a)!"]
    for p in OPS:
        out += ["a%sb" % p, "(a%sb)" % p, "-a%sb" % p, "a%s-b" % p, "a%s+b" % p, "-(a%sb)" % p, "a%s(-b)" % p, "a!%sb" % p, "a%sb!" % p, "(a%sb)!" % p,
                "a%sa" % p, "sin(a)%sb" % p, "a%ssin(b)" % p, "sin(a%sb)" % p, "atan2(a%sb,c)" % p, "atan2(a,b%sc)" % p, "max(a%sb,c)" % p,
                "2%sa" % p, "a%s2" % p, "3%s2" % p]
        for q in OPS:
            out += ["a%sb%sc" % (p, q), "(a%sb)%sc" % (p, q), "a%s(b%sc)" % (p, q)]
            if p in REP and q in REP:
                out += ["-a%sb%sc" % (p, q), "a%s-b%sc" % (p, q), "a%sb%s-c" % (p, q), "a%s-(b%sc)" % (p, q), "a!%sb%sc" % (p, q), "a%sb!%sc" % (p, q),
                        "3%sb%s2" % (p, q), "3%s2%sa" % (p, q), "a%s3%s2" % (p, q), "3%s(2%sa)" % (p, q), "a%s(3%s2)" % (p, q), "sin(a%sb)%sc" % (p, q),
                        "a%ssin(b)%sc" % (p, q), "(a%sb%sc)" % (p, q)]
    for p, q, r in itertools.product(REP if tier != "thorough" else OPS, repeat=3):
        out += ["a%sb%sc%sd" % (p, q, r), "a%s(b%sc)%sd" % (p, q, r), "(a%sb)%s(c%sd)" % (p, q, r)]
        if tier == "thorough":
            out += ["a%s(b%sc%sd)" % (p, q, r), "(a%sb%sc)%sd" % (p, q, r), "-a%sb%s-c%sd" % (p, q, r)]
    out += ["if(a,b,c)", "if(a<b,c,d)", "if(1,a,b)", "if(0,a,b)", "if(a,b+c,d)-a", "2*if(a<=b,a,b)", "max(a)", "min(a)", "avg(a)", "max(a,b)", "min(a,b)", "max(a,b,c)", "min(a,b,c)",
            "max(min(a,b),c)", "min(a,max(b,c))", "max(1,a)", "max(1,2)", "min(1,2)", "avg(a,b)", "avg(a,b,c)", "avg(1,2)", "avg(a+b,c)", "sin(cos(a))", "atan2(sin(a),cos(b))",
            "max(a,b)-min(a,b)", "-max(a,b)", "max(-a,b)", "pow(a,b)^c", "fma(a,b,c)+d", "fma(a+b,c,d)", "atan2(a,(b))", "sin((a))", "1-max(2,1)", "fma(1,2,3)",
            "c1+c2", "c4-c1", "c3", "pi*a", "a/M_PI_2", "e^a", "1e3+a", "1.5*a", "2e-2-a"]
    # deep nesting and long chains
    for f in ("max", "pow", "avg", "atan2"):
        for k in (3, 4, 5):
            out += ["".join("%s(%s," % (f, "abcd"[i % 4]) for i in range(k)) + "d" + ")" * k, ("%s(" % f) * k + "d" + "".join(",%s)" % "abcd"[i % 4] for i in range(k))]
    out += ["fma(a,fma(b,c,fma(d,a,b)),c)", "fma(fma(fma(a,b,c),d,a),b,c)", "if(a,if(b,c,d),if(c,d,a))", "if(a,pow(b,max(c,d)),fma(a,b,atan2(c,d)))", "fma(max(a,b),pow(c,d),avg(a,b))",
            "atan2(fma(a,b,c),fma(b,c,d))", "sin(cos(tan(exp(a))))", "max(a,b,c,d)", "min(a,b,c,d)", "avg(a,b,c,d)", "sin(atan2(a,b))-atan2(sin(a),b)", "max(sin(a),2)*max(2,cos(b))"]
    for p in REP[:5]:
        for k in (5, 8):
            out += [p.join("abcd"[i % 4] for i in range(k)), p.join(("abcd"[i % 4] + "!") if i % 3 == 0 else "abcd"[i % 4] for i in range(k)),
                    "(" * k + "a" + "".join("%s%s)" % (p, "bcda"[i % 4]) for i in range(k)), "".join("(%s%s" % ("abcd"[i % 4], p) for i in range(k)) + "a" + ")" * k]
    for ops in ("+*^*+", "^^*^+", "*+<+*", "-/-/-", "<+*^!", "^-^-^", "%*/%*"):
        out.append("".join("%s%s" % ("abcd"[i % 4], o) for i, o in enumerate(ops)) + ("b" if ops[-1] != "!" else ""))
        out.append("".join("-%s%s" % ("abcd"[i % 4], o) for i, o in enumerate(ops)) + ("-b" if ops[-1] != "!" else ""))
    return [t for t in dict.fromkeys(out) if "!==" not in t and len(t) <= 40]


def structure(prog, rep, tier):
    """Every expression of up to three operators (signs, factorials, parentheses and calls included) is interpreted
    abstractly from its text to its value (new, lookup, eval), the columns being unknowns: the value is the term that the
    reference grammar gives, on every order of the unknowns."""
    x = Expr(prog)
    b = prog.bodies.get(RPN) or prog.bodies.get(EX + "::lookup")

    def one(text, rep):
        rep.count("expressions")
        bad = judge(text, x.values(text, COLS))
        if bad:
            rep.bad("structure", shape(text), where(b), bad[0], bad[1].trace(10))
        else:
            rep.ok("structure", text)
    par(rep, texts(tier), one, chunk=40)


def shape(text):
    return re.sub(r"[a-d]\b|\d+", "x", text)


def functions(prog, rep, tier):
    """Every function name applies the function it names to its arguments, in their order, and takes no other number of
    arguments; every constant has its value."""
    x = Expr(prog)
    b = prog.bodies.get(EX + "::lookup")

    def one(f, rep):
        n = ARITY[f]
        args = COLS[:n]
        for text in ["%s(%s)" % (f, ",".join(args)), "%s(%s)" % (f, ",".join(reversed(args))), "d-%s(%s)" % (f, ",".join(args)),
                     "%s(%s)" % (f, ",".join("235"[:n]))]:
            bad = judge(text, x.values(text, COLS))
            if bad:
                return rep.bad("functions", f, where(b), bad[0], bad[1].trace(10))
        for k in (n - 1, n + 1):
            if k:
                refused(rep, x, "functions", f, b, "%s(%s)" % (f, ",".join(COLS[:k])))
        rep.ok("functions", f)
        rep.count("functions")

    def con(c, rep):
        outs = x.values(c, COLS)
        for v, eng, st in outs:
            t = tree(eng.nm(v)) if v not in (None, "panic") and eng.nm(v) else None
            if t is None or t[0] != "fl":
                if v is None:
                    return rep.bad("functions", c, where(b), "the constant %s is refused" % c, st.trace(10))
                raise Undecided("value of " + c)
            w = CONSTS[c]
            if not (t[1] == w or abs(t[1] - w) <= 4e-16 * abs(w)):
                return rep.bad("functions", c, where(b), "the constant %s is %r instead of %r" % (c, t[1], w), st.trace(10))
        rep.ok("functions", c)
        rep.count("constants")
    par(rep, sorted(ARITY), one, chunk=4)
    par(rep, sorted(CONSTS), con, chunk=4)


def refused(rep, x, rule, key, b, text, cols=COLS):
    outs = x.values(text, cols)
    if not outs:
        raise Undecided("no outcome")
    for v, eng, st in outs:
        if not Order(facts_of(st)).feasible():
            continue
        if v == "panic":
            raise Undecided("may panic")
        if v is not None:
            rep.bad(rule, key, where(b), "%s is accepted" % text, st.trace(10))
            return False
    return True


BAD = ["", "()", "a+", "*a", "a*", "+", "-", "a+*b", "a//b", "(a", "a)", "((a)", "(a))", "a,b", ",a", "a,", "(a,b)", "sin(a", "sin()", "max(a,)", "max(,a)", "max(a,,b)", "ab", "zz+1",
       "nosuch(a)", "a=b", "a=", "a#b", "a(b)", "2(a)", "(a)(b)", "(a)b", "1+a)", "a!b", "if(a,b)", "if(a,b,c,d)", "pow(a)", "c0", "a&b", "fma(a,b)", "a+(b", "a+)b("]


def malformed(prog, rep, tier):
    """Malformed expressions, unknown names and wrong numbers of arguments are refused with an error."""
    x = Expr(prog)
    b = prog.bodies.get(RPN) or prog.bodies.get(EX + "::lookup")

    def one(text, rep):
        rep.count("malformed expressions")
        if refused(rep, x, "malformed", text, b, text):
            rep.ok("malformed", text)
    par(rep, BAD, one, chunk=4)


def factorials(prog, rep, tier):
    """The factorial of every whole number up to 170 is the product it stands for."""
    x = Expr(prog)
    b = prog.bodies.get(EX + "::lookup")

    def hook(eng, st, call):
        if call.callee.name in ("round", "floor", "trunc", "ceil"):
            m = re.fullmatch(r"fl:(\d+)\.0", eng.nm(call.args[0]) or "")
            if m:
                return [(("c", int(m.group(1))), st)]
        return line_hook_(eng, st, call)
    line_hook_ = line_hook(prog, False)
    x.hook = hook

    def one(n, rep):
        text = "%d!" % n
        want = float(math.factorial(n)) if n <= 170 else math.inf
        seen = False
        for v, eng, st in x.values(text):
            if not Order(facts_of(st)).feasible():
                continue
            t = tree(eng.nm(v)) if v not in (None, "panic") and eng.nm(v) else None
            if t is None or t[0] != "fl":
                raise Undecided("value of " + text)
            seen = True
            if not (t[1] == want or abs(t[1] - want) <= 1e-15 * want):
                return rep.bad("factorials", "table", where(b), "%s is %r instead of %r" % (text, t[1], want), st.trace(10))
        if not seen:
            raise Undecided("no value of " + text)
        rep.ok("factorials", text)
        rep.count("factorials")
    par(rep, list(range(0, 173)), one, chunk=24)


def reuse(prog, rep, tier):
    """An expression evaluated on several records, by either entry point, and looked up again for another header, has on
    each record the value that record and the latest header give it."""
    x = Expr(prog)
    b = prog.bodies.get(EX + "::lookup")
    moved = ["d", "b", "a", "c"]
    env = lambda cols, p: {n: "%s%d" % (p, i) for i, n in enumerate(cols)}
    plans = [("two records", [("lookup", COLS), ("eval", "eval", "v"), ("eval", "eval", "w")], [env(COLS, "v"), env(COLS, "w")]),
             ("two lines", [("lookup", COLS), ("eval", "eval_line", "v"), ("eval", "eval_line", "w")], [env(COLS, "v"), env(COLS, "w")]),
             ("record and line", [("lookup", COLS), ("eval", "eval", "v"), ("eval", "eval_line", "w")], [env(COLS, "v"), env(COLS, "w")]),
             ("another header", [("lookup", COLS), ("eval", "eval", "v"), ("lookup", moved), ("eval", "eval", "w")], [env(COLS, "v"), env(moved, "w")])]
    jobs = [(t, p) for t in ("a", "a-b", "a-b*c", "-a", "(a-b)/(c-d)", "pow(a,b)", "fma(a,b,c)-d", "sin(a)", "a-a", "avg(a,b)", "2-a", "atan2(b,a)-c", "a^b^c")
            for p in plans]

    def one(job, rep):
        text, (name, plan, envs) = job
        outs = x.steps(text, plan)
        if len(outs) != 1:
            raise Undecided("%d outcomes" % len(outs))
        vals, eng, st = outs[0]
        want = reference(text)
        for v, e in zip(vals, envs):
            n = eng.nm(v)
            if n is None:
                raise Undecided("value that is not followed")
            got, w = tree(n), evaluate(want, e, Order(()))
            if got != w:
                return rep.bad("reuse", name, where(b), "%s (%s) has the value %s instead of %s" % (text, name, pretty(got), pretty(w)), st.trace(10))
        rep.ok("reuse", "%s: %s" % (name, text))
        rep.count("histories")
    par(rep, jobs, one, chunk=4)


RULES = [structure, reuse, functions, malformed, factorials]
