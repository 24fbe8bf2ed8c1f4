"""Evaluation of the predicate/term names produced by the abstract interpreter over small models."""
import functools


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur or out:
        out.append(cur)
    return out


@functools.lru_cache(maxsize=None)
def parse(s):
    """('call', f, args) | ('atom', s)"""
    i = s.find("(")
    if i >= 0 and s.endswith(")"):
        d = 0
        for j in range(i, len(s)):
            if s[j] == "(":
                d += 1
            elif s[j] == ")":
                d -= 1
                if d == 0:
                    break
        if j == len(s) - 1:
            return ("call", s[:i].rsplit("::", 1)[-1], tuple(parse(x) for x in split_args(s[i + 1:-1])))
    return ("atom", s)


class Unknown(Exception):
    pass


def ev(t, env):
    if t[0] == "atom":
        s = t[1]
        if s in env:
            return env[s]
        if s.lstrip("-").isdigit():
            return int(s)
        if s.startswith("fl:"):
            return float(s[3:])
        if s.startswith("!"):
            return not ev(parse(s[1:]), env)
        raise Unknown(s)
    f, a = t[1], [ev(x, env) for x in t[2]]
    if f == "":
        return tuple(a)
    if f == "eq":
        return a[0] == a[1]
    if f == "lt":
        return a[0] < a[1]
    if f == "le":
        return a[0] <= a[1]
    if f == "gt":
        return a[0] > a[1]
    if f == "ge":
        return a[0] >= a[1]
    if f == "add":
        return a[0] + a[1]
    if f == "sub":
        return a[0] - a[1]
    if f == "mul":
        return a[0] * a[1]
    if f == "neg":
        return -a[0]
    if f == "div":
        if a[1] == 0:
            return float("nan") if a[0] == 0 else (float("inf") if a[0] > 0 else float("-inf"))
        return a[0] / a[1]
    if f == "mul_add":
        return a[0] * a[1] + a[2]
    if f == "contains":
        return a[0][0] <= a[1] < a[0][1]
    if f in ("bitand",):
        return a[0] & a[1]
    if f in ("bitor",):
        return a[0] | a[1]
    if f in ("bitxor",):
        return a[0] ^ a[1]
    raise Unknown(f)


def value(v, env):
    """Concrete reading of an abstract bool/number under env."""
    if v[0] == "c":
        return v[1]
    if v[0] == "not":
        return not value(v[1], env)
    if v[0] == "m":
        return ev(parse(v[1]), env)
    raise Unknown(str(v))


def consistent(asm, env, enums=()):
    """Do the predicate assumptions of a path hold in the model?  Enum assumptions are skipped."""
    for k, x in asm.items():
        if x[0] != "c":
            continue
        if int(ev(parse(k), env)) != x[1]:
            return False
    return True


OPS = {"eq", "lt", "le", "gt", "ge", "add", "sub", "mul", "neg", "div", "mul_add", "bitand", "bitor", "bitxor"}
BOOLOPS = {"eq", "lt", "le", "gt", "ge"}


def leaf_name(t):
    if t[0] == "atom":
        return t[1]
    return "%s(%s)" % (t[1], ",".join(leaf_name(x) for x in t[2]))


def leaves(t, out, consts, boolctx):
    """Collect the uninterpreted parts of a term: name -> 'b' (truth value) or 'n' (number)."""
    if t[0] == "atom":
        s = t[1]
        if s.startswith("!"):
            leaves(parse(s[1:]), out, consts, True)
        elif s.lstrip("-").isdigit():
            consts.add(int(s))
        elif s.startswith("fl:"):
            consts.add(float(s[3:]))
        else:
            out[s] = "b" if boolctx and out.get(s, "b") == "b" else "n"
        return
    if t[1] in OPS:
        for x in t[2]:
            leaves(x, out, consts, t[1] in ("bitand", "bitor", "bitxor") and boolctx)
        return
    n = leaf_name(t)
    out[n] = "b" if boolctx and out.get(n, "b") == "b" else "n"


def canon(s):
    return leaf_name(parse(s))


def evl(t, env):
    """Evaluate with whole uninterpreted subterms looked up in env."""
    if t[0] == "atom":
        return ev(t, env) if t[1] not in env else env[t[1]]
    if t[1] in OPS:
        return ev(("call", t[1], tuple(("val", evl(x, env)) for x in t[2])), env) if False else _op(t[1], [evl(x, env) for x in t[2]])
    return env[leaf_name(t)]


def _op(f, a):
    return ev(("call", f, tuple(("atom", "$%d" % i) for i in range(len(a)))), {"$%d" % i: x for i, x in enumerate(a)})


def valuel(v, env):
    if v[0] == "c":
        return v[1]
    if v[0] == "not":
        return 1 - int(bool(valuel(v[1], env)))
    if v[0] == "m" and not v[3]:
        return evl(parse(v[1]), env)
    raise Unknown(str(v))


def models(names, limit=20000):
    """All assignments of small values to the leaves of the given (term text, is truth value) pairs."""
    import itertools
    lv, consts = {}, set()
    for n, b in names:
        leaves(parse(n), lv, consts, b)
    dom = sorted({0, 1, 2} | consts | {c + 1 for c in consts} | {c - 1 for c in consts if c > 0})
    ks = sorted(lv)
    tot = 1
    for k in ks:
        tot *= 2 if lv[k] == "b" else len(dom)
    if tot > limit:
        raise Unknown("too many models (%d)" % tot)
    for vs in itertools.product(*[(0, 1) if lv[k] == "b" else dom for k in ks]):
        yield dict(zip(ks, vs))
