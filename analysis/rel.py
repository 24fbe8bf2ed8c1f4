"""Relational reading of the outcomes of comparison functions.

An outcome of a comparison function (path condition and result) becomes a set of atoms; an atom constrains how two
terms relate (less, equal, greater or, for floats, unordered) under some comparison.  `feasible` decides whether a set
of atoms can hold together: equality is a congruence, the standard order is a total preorder on its terms, every
comparison calls a value equal to itself, and ulp_to_ulong preserves the order of floats."""
import itertools
from .absint import Undecided
from .terms import parse
from .models import ORD

FLIP = {"<": ">", ">": "<", "=": "=", "U": "U"}
REL = "<=>"
TRANSPARENT = {"to_vec", "clone", "as_slice", "deref", "into", "borrow", "as_ref", "to_owned", "as_bytes", "from_ref", "into_boxed_slice", "as_mut_slice", "into_vec",
               "try_into", "try_from", "from", "unwrap", "expect", "unwrap_or_default", "unwrap_unchecked"}
# functions of one value known to map some different values to the same result, and not to preserve order
LOSSY = {"len", "lower", "to_f64", "to_f64_lossy", "ulp_to_ulong", "abs", "trimw", "trimw_start", "trim", "trim_start", "trim_end", "first", "last",
         "min", "get", "get_col", "eval", "eval_line", "line", "bare", "from_be_bytes", "make_array", "", "to_ascii_uppercase", "neg", "size", "cache", "size_plus"}
LOWER = {"to_ascii_lowercase", "new_lower", "lower"}
INSENS_ORD = {"cmp_insens": (1, 1), "cmp_insens_quick": (0, 1)}
INSENS_EQ = {"eq_ignore_ascii_case": (1, 1), "equal_insens": (1, 1), "equal_insens_quick": (0, 1)}
CMP2 = {"eq": "=", "ne": "<>", "lt": "<", "gt": ">", "le": "<=", "ge": ">="}
KNOWN = {"ip_cmp", "num_cmp_signed", "num_cmp_unsigned", "INNER", "frac_cmp"}


def norm(t):
    if t[0] == "atom":
        return t
    args = tuple(norm(x) for x in t[2])
    f = t[1]
    if f in TRANSPARENT and len(args) == 1:
        return args[0]
    if f in LOWER and len(args) == 1:
        return lower(args[0])
    return ("call", f, args)


def lower(t):
    return t if t[0] == "call" and t[1] == "lower" else ("call", "lower", (t,))


def term(s):
    return norm(parse(s.replace("*", "").replace("[()]", "").replace("@Ok.0", "").replace("@Some.0", "").replace("<impl [T]>::", "").replace("<impl [u8]>::", "")))


def text(t):
    if t[0] == "atom":
        return t[1]
    return "%s(%s)" % (t[1], ",".join(text(x) for x in t[2]))


def odd(t):
    if t[0] == "atom":
        if "(" in t[1] or "@" in t[1]:
            raise Undecided("value %s" % t[1][:60])
    else:
        for x in t[2]:
            odd(x)


class Reader:
    def __init__(self, prog):
        self.f64 = {"to_f64", "to_f64_lossy"}
        for p, b in prog.bodies.items():
            t = b.locals[0]
            if t is not None and prog.types[t]["s"] == "f64" and "{closure" not in p:
                self.f64.add(p.rsplit("::", 1)[-1])
        self.sub = {}

    def rd(self, s):
        if "~" in s:
            raise Undecided("value not followed: " + s[:60])
        for k, v in self.sub.items():
            s = s.replace(k, v)
        t = term(s)
        if "<" in text(t).replace("<impl", ""):
            raise Undecided("value not followed: " + s[:60])
        odd(t)
        return t

    def isf(self, t):
        if t[0] == "atom":
            return t[1].startswith("fl:")
        if t[1] in ("neg", "add", "sub", "mul", "div", "abs"):
            return any(self.isf(x) for x in t[2])
        return t[1] in self.f64

    def ordterm(self, s):
        """(family, a, b, flipped) of an Ordering-valued term."""
        t = self.rd(s)
        flip = False
        while t[0] == "call" and t[1] == "reverse" and len(t[2]) == 1:
            t, flip = t[2][0], not flip
        if t[0] != "call" or len(t[2]) != 2:
            raise Undecided("ordering %s" % s[:80])
        f, (a, b) = t[1], t[2]
        if f == "cmp":
            return "std", a, b, flip
        if f in INSENS_ORD:
            w = INSENS_ORD[f]
            if not w[0] and not (a[0] == "call" and a[1] == "lower"):
                return f, a, b, flip
            return "std", lower(a), lower(b), flip
        if f in ("total_cmp", "partial_cmp"):
            raise Undecided("ordering %s" % s[:80])
        return f, a, b, flip

    def boolatom(self, s, val):
        """Atom of a truth-valued term."""
        if s.startswith("!"):
            return self.boolatom(s[1:], 1 - val)
        t = self.rd(s)
        if t[0] == "call" and len(t[2]) == 2:
            f, (a, b) = t[1], t[2]
            if f in CMP2:
                rel = set(CMP2[f])
                if not val:
                    rel = (set("<=>U") if self.isf(a) or self.isf(b) else set("<=>")) - rel
                return ("p", "std", a, b, frozenset(rel))
            if f in INSENS_EQ:
                w = INSENS_EQ[f]
                if not w[0] and not (a[0] == "call" and a[1] == "lower"):
                    raise Undecided("case-insensitive comparison of a value that is not known to be lower case")
                return ("p", "std", lower(a), lower(b), frozenset("=" if val else "<>"))
        return ("u", t, val)

    def atoms(self, asm):
        out = []
        for k, x in asm.items():
            if x[0] == "ev":
                t = self.rd(k)
                raw = parse(k)
                if raw[0] == "call" and raw[1] in ("try_from", "try_into"):
                    if x[1] == 1:  # a number that does not fit: lengths always do
                        out.append(("p", "std", ("atom", "0"), ("atom", "0"), frozenset("<")))
                    continue
                if t[0] != "call" or t[1] not in KNOWN | set(INSENS_ORD) | {"cmp", "reverse"}:
                    out.append(("u", t, x[1]))
                    continue
                f, a, b, fl = self.ordterm(k)
                r = REL[x[1]]
                out.append(("p", f, a, b, frozenset(FLIP[r] if fl else r)))
            elif x[0] == "c" and x[1] in (0, 1):
                out.append(self.boolatom(k, x[1]))
            else:
                raise Undecided("assumption %s" % k[:80])
        return out

    def cases(self, eng, outs):
        """[(atoms, result)]: result '<','=','>' of an ordering, True/False of a truth value."""
        res = []
        for v, st in outs:
            at = self.atoms(st.asm)
            v = eng.norm(st, v)
            neg = False
            while v[0] == "not":
                v, neg = v[1], not neg
            if v[0] == "e" and v[1] == ORD:
                res.append((at, REL[v[2]]))
            elif v[0] == "c":
                res.append((at, bool(v[1]) != neg))
            elif v[0] == "m" and v[2] is not None and eng.p.types[v[2]].get("d") == ORD:
                a = st.asm.get(v[1])
                if a and a[0] == "ev":
                    res.append((at, REL[a[1]]))
                    continue
                f, a, b, fl = self.ordterm(v[1])
                for r in REL:
                    res.append((at + [("p", f, a, b, frozenset(r))], FLIP[r] if fl else r))
            elif v[0] == "m" and not v[3]:
                for val in (0, 1):
                    res.append((at + [self.boolatom(v[1], val)], bool(val) != neg))
            else:
                raise Undecided("result %s" % (str(v)[:80],))
        return res


def understood(atoms, both=("left", "right")):
    """Only atoms whose freedom we know: no opaque truth value that speaks of both operands, no mix of unknown orders."""
    fams = {a[1] for a in atoms if a[0] == "p"}
    odd = fams - KNOWN - {"std"}
    if odd and len(fams) > 1:
        raise Undecided("comparisons %s" % sorted(fams))
    ps = {tuple(sorted((text(a[2]), text(a[3])))) for a in atoms if a[0] == "p"}
    if len(ps) > 1:
        fs = set()
        for a in atoms:
            if a[0] == "p":
                funs(a[2], fs)
                funs(a[3], fs)
        if fs - LOSSY:
            raise Undecided("relation of %s to the plain values" % sorted(fs - LOSSY))
    for a in atoms:
        if a[0] == "u":
            x = text(a[1])
            if all(w in x for w in both):
                raise Undecided("condition %s" % x[:80])


def funs(t, out):
    if t[0] == "call":
        out.add(t[1])
        for x in t[2]:
            funs(x, out)


def rewrite(t, rep):
    for _ in range(8):
        s = text(t)
        if s in rep:
            t = rep[s]
            continue
        break
    if t[0] == "call":
        n = ("call", t[1], tuple(rewrite(x, rep) for x in t[2]))
        if n != t:
            return rewrite(n, rep)
    return t


def feasible(rd, atoms):
    """A choice of relations (dict) that makes all atoms hold together, or None."""
    ps = {}
    for a in atoms:
        if a[0] != "p":
            continue
        _, f, x, y, rel = a
        if text(x) > text(y):
            x, y, rel = y, x, frozenset(FLIP[r] for r in rel)
        k = (f, x, y)
        ps[k] = ps.get(k, frozenset("<=>U" if f == "std" and (rd.isf(x) or rd.isf(y)) else "<=>")) & rel
        if not ps[k]:
            return None
    us = [a for a in atoms if a[0] == "u"]
    ks = sorted(ps, key=repr)
    n = 1
    for k in ks:
        n *= len(ps[k])
    if n > 20000:
        raise Undecided("too many cases")
    for ch in itertools.product(*[sorted(ps[k]) for k in ks]):
        if _holds(rd, ks, ch, us):
            return {"%s(%s,%s)" % (k[0], text(k[1]), text(k[2])): c for k, c in zip(ks, ch)}
    return None


def _holds(rd, ks, ch, us):
    rep = {}
    pend = [(k, c) for k, c in zip(ks, ch)]
    for k, c in pend:
        if k[0] == "std" and c == "=":
            a, b = rewrite(k[1], rep), rewrite(k[2], rep)
            if text(a) != text(b):
                a, b = sorted((a, b), key=lambda t: (len(text(t)), text(t)))
                if b[0] == "atom" and b[1].lstrip("-").isdigit():
                    a, b = b, a
                rep[text(b)] = a
    less = set()
    nodes = {}
    for k, c in pend:
        a, b = rewrite(k[1], rep), rewrite(k[2], rep)
        ta, tb = text(a), text(b)
        if ta == tb:
            if c != "=" and not (c == "U" and k[0] == "std"):
                return False
            continue
        if k[0] != "std":
            continue
        if c == "=":
            return False
        nodes[ta], nodes[tb] = a, b
        if c == "<":
            less.add((ta, tb))
        elif c == ">":
            less.add((tb, ta))
    ints = sorted((int(x), x) for x in nodes if x.lstrip("-").isdigit())
    for i in range(len(ints) - 1):
        less.add((ints[i][1], ints[i + 1][1]))
    # order-preserving maps
    for x in nodes:
        if x.startswith("len("):
            for v, s in ints:
                if v == 0 and (x, s) in less:
                    return False
    ch = True
    while ch:
        ch = False
        for a, b in list(less):
            for c, d in list(less):
                if b == c and (a, d) not in less:
                    less.add((a, d))
                    ch = True
            pa, pb = nodes.get(a), nodes.get(b)
            q = None
            if pa and pb and pa[0] == pb[0] == "call" and pa[1] == pb[1] == "ulp_to_ulong":
                q = (text(pa[2][0]), text(pb[2][0]))
            elif pa and pb and pa[0] == pb[0] == "call" and pa[1] == pb[1] == "min" and len(pa[2]) == len(pb[2]) == 2:
                d = [i for i in (0, 1) if pa[2][i] != pb[2][i]]
                if len(d) == 1:
                    q = (text(pa[2][d[0]]), text(pb[2][d[0]]))
            if q:
                if q[0] in nodes and q[1] in nodes and q not in less:
                    un = any(k2[0] == "std" and {text(rewrite(k2[1], rep)), text(rewrite(k2[2], rep))} == set(q) and c2 == "U" for k2, c2 in pend)
                    if not un:
                        less.add(q)
                        ch = True
    if any(a == b for a, b in less):
        return False
    seen = {}
    for u in us:
        t = text(rewrite(u[1], rep))
        if seen.setdefault(t, u[2]) != u[2]:
            return False
    return True


def swap_names(atoms, a, b):
    def sw(t):
        if t[0] == "atom":
            return ("atom", t[1].replace(a, b))
        return ("call", t[1], tuple(sw(x) for x in t[2]))
    return [("p", x[1], sw(x[2]), sw(x[3]), x[4]) if x[0] == "p" else ("u", sw(x[1]), x[2]) for x in atoms]
