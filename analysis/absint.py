"""Flow- and path-sensitive abstract interpretation of MIR with a finite domain and a monitor automaton.

Abstract values (hashable tuples):
  ('c', n)                 integer / bool / char constant
  ('iv', lo, hi|None)      integer interval (counters)
  ('s', text) ('b', bytes) string / byte-string constants (as pointers to constant data)
  ('e', adt, vi, fields)   enum value of known variant
  ('t', adt|None, fields)  struct / tuple / array with known parts
  ('cl', path, captures)   closure;   ('fn', path) function item
  ('r', root, proj)        pointer to an abstract location
  ('kp', value)            pointer to a constant
  ('it', kind, data)       iterator over a collection
  ('m', name, ty, over)    opaque value identified by `name`, with overridden parts
  ('dy', value)            discriminant of an opaque enum
  ('not', value)           negated opaque bool
  ('x',)                   unknown

Opaque values are named after the program point that produced them (recency abstraction: when a point is re-executed
the previous generation is renamed to a summary whose predicates are never remembered).  Loops reach a fixpoint because
the domain is finite and states are joined at loop heads (keyed by call stack, block and monitor state).
"""
import time
import re
from collections import deque

TOP = ("x",)
TRUE = ("c", 1)
FALSE = ("c", 0)
UNIT = ("t", None, ())
CAP = 2
TERM = (160, 4, 200)   # longest and deepest arithmetic term, longest comparison that is named


class Undecided(Exception):
    pass


class Frame:
    __slots__ = ("body", "bb", "dest", "ret", "ctx", "dctx")

    def __init__(self, body, bb, dest, ret, ctx):
        self.body = body
        self.bb = bb
        self.dest = dest      # abstract location for result, or None
        self.ret = ret        # block in the caller to continue at
        self.ctx = ctx

    def at(self, bb):
        return Frame(self.body, bb, self.dest, self.ret, self.ctx)

    def key(self):
        return (self.body.path, self.bb, self.ctx)


class State:
    __slots__ = ("frames", "store", "asm", "made", "mon", "trail", "post")

    def __init__(self, frames, store, asm, made, mon, trail=None, post=()):
        self.frames = frames
        self.store = store
        self.asm = asm
        self.made = made
        self.mon = mon
        self.trail = trail
        self.post = post  # pending continuations of modelled higher-order calls, one per synthetic frame

    def copy(self):
        return State(self.frames, dict(self.store), dict(self.asm), self.made, self.mon, self.trail, self.post)

    def note(self, s):
        self.trail = (self.trail, s)

    def trace(self, n=14):
        out, t = [], self.trail
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Call:
    __slots__ = ("callee", "args", "site", "term", "body", "bb", "dest", "argtys")

    def where(self):
        return "%s:%s in %s" % (self.body.file, self.term["ln"], self.body.path)


class Monitor:
    """Override what is needed."""
    init = ()

    def relevant(self, path):
        """Should a call to this local function be inlined?"""
        return True

    def on_call(self, eng, st, call):
        return None

    def on_exit(self, eng, st, val):
        pass

    def on_diverge(self, eng, st, call):
        pass

    def on_drop(self, eng, st, root, proj, ty, frame, term):
        pass

    def on_write(self, eng, st, root, proj, val, frame, line):
        pass


def is_m(v):
    return v[0] == "m"


def mk(name, ty=None):
    return ("m", name, ty, ())


DEADLINE = [None]


def late():
    """Is the time given to this run used up? What is left is then undecided."""
    return DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]


class Engine:
    def __init__(self, prog, monitor, max_depth=12, max_steps=400000, head_k=6, join_k=120, uf=False):
        self.p = prog
        self.lists = False      # follow the elements of lists that are built step by step
        self.recursion = 1      # how often a function may occur on the call stack
        self.blind = 0          # branches on values that are not followed
        self.uf = uf            # name results of opaque calls after callee and argument contents
        self.mon = monitor
        self.max_depth = max_depth
        self.dyn = None         # chooses the implementation of a method from the value of the receiver
        self.max_steps = max_steps
        self.head_k = head_k
        self.join_k = join_k
        self.steps = 0
        self.ctxs = {}
        self.live = {}
        self.constcache = {}
        self.models = MODELS
        self.inlined = set()
        self.opaque = {}
        self.visited_blocks = set()

    # ---------------------------------------------------------------- contexts
    def ctx(self, t):
        if t not in self.ctxs:
            self.ctxs[t] = len(self.ctxs)
        return self.ctxs[t]

    # ---------------------------------------------------------------- liveness
    def liveness(self, body):
        if body.path in self.live:
            return self.live[body.path]
        n = len(body.bbs)
        addr = set()
        use, defs = [set() for _ in range(n)], [set() for _ in range(n)]

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e != "*" and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o["k"] in ("copy", "move"):
                pl_use(o["p"], u, d)
        for i, b in enumerate(body.bbs):
            u, d = use[i], defs[i]
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r["k"]
                    if k in ("use", "repeat", "cast", "un"):
                        op_use(r["o"], u, d)
                    elif k in ("ref", "rawptr"):
                        pl_use(r["p"], u, d)
                        if not any(e == "*" for e in r["p"][1]):
                            addr.add(r["p"][0])
                    elif k == "bin":
                        op_use(r["l"], u, d)
                        op_use(r["r"], u, d)
                    elif k == "discr":
                        pl_use(r["p"], u, d)
                    elif k == "agg":
                        for x in r["ops"]:
                            op_use(x, u, d)
                    if s[1][1]:
                        pl_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == "sd":
                    pl_use(s[1], u, d)
            t = b["t"]
            k = t["k"]
            if k == "switch":
                op_use(t["d"], u, d)
            elif k == "call":
                op_use(t["f"], u, d)
                for x in t["args"]:
                    op_use(x, u, d)
                if t["d"][1]:
                    pl_use(t["d"], u, d)
            elif k == "drop":
                pl_use(t["p"], u, d)
            elif k == "assert":
                op_use(t["c"], u, d)
            elif k == "return":
                u.add(0)
        livein = [set(x) for x in use]
        changed = True
        order = list(range(n))[::-1]
        while changed:
            changed = False
            for i in order:
                out = set()
                for s in body.succ(i):
                    out |= livein[s]
                t = body.bbs[i]["t"]
                if t["k"] == "call" and not t["d"][1]:
                    out.discard(t["d"][0])
                new = use[i] | (out - defs[i])
                if new != livein[i]:
                    livein[i] = new
                    changed = True
        self.live[body.path] = (livein, addr)
        return self.live[body.path]

    # ---------------------------------------------------------------- locations and values
    def child(self, v, k, ty, label):
        """Part of a value; k is the projection key."""
        tag = v[0]
        if tag == "m":
            for kk, vv in v[3]:
                if kk == k:
                    if vv[0] == "m" and vv[2] is None and ty is not None:
                        return ("m", vv[1], ty, vv[3])
                    return vv
            if k[0] == "v":
                return ("m", v[1] + label, v[2], ())
            return ("m", v[1] + label, ty, ())
        if tag == "t":
            if k[0] == "f" and k[1] < len(v[2]):
                return v[2][k[1]]
            if k[0] == "ix" and isinstance(k[1], int) and 0 <= k[1] < len(v[2]):
                return v[2][k[1]]
            if k[0] == "sub":
                return ("t", v[1], v[2][k[1]:k[2]])
            if k[0] == "v":
                return v
            return TOP
        if tag == "e":
            if k[0] == "v":
                return v if v[2] == k[1] else TOP
            if k[0] == "f" and k[1] < len(v[3]):
                return v[3][k[1]]
            return TOP
        if tag == "cl":
            if k[0] == "f" and k[1] < len(v[2]):
                return v[2][k[1]]
        if tag in ("r", "kp", "s", "b", "it") and k[0] == "f":
            return v  # Box/Unique/NonNull wrappers are transparent
        return TOP

    def setchild(self, v, k, ty, label, val, st):
        tag = v[0]
        if tag == "m":
            over = [x for x in v[3] if x[0] != k]
            if k[0] == "ix":
                over = [x for x in over if not (x[0][0] == "ix" and not (isinstance(k[1], int) and isinstance(x[0][1], int)))]
            over.append((k, val))
            over.sort(key=repr)
            return ("m", v[1], v[2], tuple(over))
        if tag == "t" and k[0] in ("f", "ix") and isinstance(k[1], int) and 0 <= k[1] < len(v[2]):
            l = list(v[2])
            l[k[1]] = val
            return ("t", v[1], tuple(l))
        if tag == "t" and k[0] == "sub" and val[0] == "t" and len(val[2]) == k[2] - k[1]:
            return ("t", v[1], v[2][:k[1]] + val[2] + v[2][k[2]:])
        if tag == "e":
            if k[0] == "v":
                return val
            if k[0] == "f" and k[1] < len(v[3]):
                l = list(v[3])
                l[k[1]] = val
                return ("e", v[1], v[2], tuple(l))
        if tag == "cl" and k[0] == "f" and k[1] < len(v[2]):
            l = list(v[2])
            l[k[1]] = val
            return ("cl", v[1], tuple(l))
        return TOP

    def base(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == "O":
                return ("m", root[1], root[2], ())
            if root[0] == "K":
                return root[1]
            return TOP
        return v

    def read(self, st, root, proj):
        v = self.base(st, root)
        for (k, ty, label) in proj:
            v = self.child(v, k, ty, label)
            if v is TOP:
                return TOP
        return self.norm(st, v)

    def norm(self, st, v):
        if v[0] == "m" and not v[3]:
            a = st.asm.get(v[1])
            if a is not None and a[0] == "c":
                return a
        elif v[0] == "not":
            a = self.norm(st, v[1])
            if a[0] == "c" and a[1] in (0, 1):
                return ("c", 1 - a[1])
        return v

    def write(self, st, root, proj, val):
        if root[0] == "K":
            return
        if not proj:
            st.store[root] = val
            return

        def rec(v, i):
            if i == len(proj):
                return val
            k, ty, label = proj[i]
            return self.setchild(v, k, ty, label, rec(self.child(v, k, ty, label), i + 1), st)
        st.store[root] = rec(self.base(st, root), 0)

    def deref(self, v):
        """Location a pointer value points to: (root, proj) or None."""
        if v[0] == "r":
            return (v[1], v[2])
        if v[0] == "kp":
            return (("K", v[1]), ())
        if v[0] in ("s", "b"):
            return (("K", v), ())
        if v[0] == "m":
            ty = v[2]
            pt = None
            if ty is not None:
                t = self.p.types[ty]
                if t["k"] in ("ref", "ptr"):
                    pt = t["a"][0]
                elif t["k"] == "adt" and t["d"] == "alloc::boxed::Box" and t.get("a"):
                    pt = t["a"][0]
            for kk, vv in v[3]:
                if kk == ("*",):
                    return self.deref(vv)
            return (("O", v[1] + "*", pt), ())
        if v[0] == "box":
            return (("O", v[1], None), ())
        return None

    def mkref(self, root, proj):
        if root[0] == "K" and not proj:
            v = root[1]
            if v[0] in ("s", "b"):
                return v
            return ("kp", v)
        if root[0] == "K":
            v = root[1]
            for (k, ty, label) in proj:
                v = self.child(v, k, ty, label)
            if v[0] in ("s", "b"):
                pass
            return ("kp", v)
        # &*x of a symbolic pointer is the pointer itself
        return ("r", root, proj)

    def place(self, st, p, depth):
        """Resolve a MIR place to a location (root, proj) or None."""
        root, proj = ("L", depth, p[0]), ()
        body = st.frames[depth].body
        for e in p[1]:
            if e == "*":
                v = self.read(st, root, proj)
                loc = self.deref(v)
                if loc is None:
                    return None
                root, proj = loc
            elif e[0] == "f":
                # Box / Unique / NonNull internals are transparent
                if e[3] in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                    continue
                nm = e[2] if e[2] is not None else str(e[1])
                proj = proj + ((("f", e[1]), e[4], "." + nm),)
            elif e[0] == "v":
                proj = proj + ((("v", e[1]), None, "@" + str(e[2] if e[2] else e[1])),)
            elif e[0] == "i":
                iv = self.read(st, ("L", depth, e[1]), ())
                key = iv[1] if iv[0] == "c" else (self.nm(iv) or "?")
                proj = proj + ((("ix", key), None, "[%s]" % key),)
            elif e[0] == "ci":
                if e[2]:
                    proj = proj + ((("ix", "-%d" % e[1]), None, "[-%d]" % e[1]),)
                else:
                    proj = proj + ((("ix", e[1]), None, "[%d]" % e[1]),)
            elif e[0] == "ss":
                proj = proj + ((("ss",), None, "[..]"),)
            else:
                return None
        return root, proj

    # ---------------------------------------------------------------- names
    def nm(self, v):
        t = v[0]
        if t == "c":
            return str(v[1])
        if t == "m":
            return v[1] if not v[3] else v[1] + "{" + ",".join("%s=%s" % (k, self.nm(x)) for k, x in v[3]) + "}"
        if t in ("s", "b"):
            return repr(v[1])
        if t == "r":
            return "&" + self.locname(v[1], v[2])
        if t == "kp":
            n = self.nm(v[1])
            return "&" + n if n else None
        if t == "e":
            fs = [self.nm(x) for x in v[3]]
            if any(f is None for f in fs):
                return None
            return "%s#%d(%s)" % (v[1].rsplit("::", 1)[-1], v[2], ",".join(fs))
        if t == "t":
            fs = [self.nm(x) for x in v[2]]
            if any(f is None for f in fs):
                return None
            return "(%s)" % ",".join(fs)
        if t == "not":
            n = self.nm(v[1])
            return "!" + n if n else None
        if t == "dy":
            n = self.nm(v[1])
            return "d(" + n + ")" if n else None
        if t == "fn":
            return v[1]
        return None

    def locname(self, root, proj):
        if root[0] == "L":
            s = "L%d.%d" % (root[1], root[2])
        elif root[0] == "O":
            s = root[1]
        else:
            s = "K" + str(self.nm(root[1]))
        for k, ty, label in proj:
            s += label
        return s

    def fresh(self, st, frame, tag, ty):
        """New opaque value named after the current program point."""
        tok = "<%s%d:%d>" % (tag, frame.ctx, frame.bb)
        self.age(st, tok)
        return ("m", tok, ty, ())

    def age(self, st, tok):
        if tok not in st.made:
            st.made = st.made | {tok}
            return
        old = "~" + tok[1:]
        for r in list(st.store):
            v = st.store[r]
            nv = subst(v, tok, old)
            if r[0] == "O" and tok in r[1]:
                del st.store[r]
                st.store[("O", r[1].replace(tok, old), r[2])] = nv
            elif nv is not v:
                st.store[r] = nv
        for k in [k for k in st.asm if tok in k or old in k]:
            del st.asm[k]
        mon = st.mon
        nmn = subst_any(mon, tok, old)
        if nmn is not mon:
            st.mon = nmn

    # ---------------------------------------------------------------- operands
    def constant(self, o):
        if "fn" in o:
            return ("fn", o.get("res") or o["fn"])
        if "str" in o:
            return ("s", o["str"])
        if "prom" in o:
            v = self.constbody("%s#p%d" % (o["promof"], o["prom"]))
            return v
        ty = o["ty"]
        t = self.p.types[ty]
        if "v" in o:
            if t["k"] == "adt":
                ad = self.p.adts.get(t["d"])
                if ad and ad["enum"]:
                    for i, var in enumerate(ad["variants"]):
                        if var["discr"] == o["v"] and not var["fields"]:
                            return ("e", t["d"], i, ())
                return ("m", "K:%s:%s" % (t["d"], o["v"]), ty, ())
            if t["k"] == "float":
                return ("m", "fl:%s" % o.get("fl", o["v"]), ty, ())
            return ("c", o["v"])
        if "bytes" in o:
            return ("b", o["bytes"])
        if "static" in o:
            return ("r", ("O", "static:" + o["static"], self.p.types[ty]["a"][0] if t.get("a") else None), ())
        if "named" in o:
            v = self.constbody(o["named"])
            if v is not None:
                return v
        if t["k"] == "tuple" and not t.get("a"):
            return UNIT
        if t["k"] == "adt":
            ad = self.p.adts.get(t["d"])
            if ad and not ad["enum"] and not ad["variants"][0]["fields"]:
                return ("t", t["d"], ())
        if t["k"] == "closure":
            return ("cl", t["d"], ())
        if t["k"] == "fndef":
            return ("fn", t["d"])
        return ("m", "const:%s" % t["s"], ty, ())

    def constbody(self, path):
        if path in self.constcache:
            return self.constcache[path]
        self.constcache[path] = ("m", "const:" + path, None, ())
        b = self.p.bodies.get(path)
        if b is None:
            return self.constcache[path]
        st = State((Frame(b, 0, None, None, -1),), {}, {}, frozenset(), None)
        bb = 0
        n = 0
        ok = True
        while n < 500:
            n += 1
            blk = b.bbs[bb]
            for s in blk["s"]:
                self.stmt(st, s, 0)
            t = blk["t"]
            if t["k"] == "return":
                break
            if t["k"] in ("goto", "drop", "assert"):
                bb = t["t"]
                continue
            if t["k"] == "call" and t["t"] is not None:
                c = self.p.callee(t)
                loc = self.place(st, t["d"], 0)
                val = TOP
                if c and c.res in self.p.bodies and len(self.p.bodies[c.res].bbs) == 1:
                    val = self._straight(c.res, [self.operand(st, a, 0) for a in t["args"]])
                self.write(st, loc[0], loc[1], val)
                bb = t["t"]
                continue
            ok = False
            break
        v = self.materialize(st, self.read(st, ("L", 0, 0), ()))
        self.constcache[path] = v if ok else ("m", "const:" + path, None, ())
        return self.constcache[path]

    def _straight(self, path, args):
        b = self.p.bodies[path]
        st = State((Frame(b, 0, None, None, -1),), {}, {}, frozenset(), None)
        for i, a in enumerate(args):
            st.store[("L", 0, i + 1)] = a
        for s in b.bbs[0]["s"]:
            self.stmt(st, s, 0)
        if b.bbs[0]["t"]["k"] != "return":
            return TOP
        return self.materialize(st, self.read(st, ("L", 0, 0), ()))

    def materialize(self, st, v, d=0):
        """Turn pointers into constant-body locals into pointers to constants."""
        if d > 8:
            return TOP
        if v[0] == "r" and v[1][0] == "L":
            return ("kp", self.materialize(st, self.read(st, v[1], v[2]), d + 1))
        if v[0] == "kp":
            return ("kp", self.materialize(st, v[1], d + 1))
        if v[0] == "t":
            return ("t", v[1], tuple(self.materialize(st, x, d + 1) for x in v[2]))
        if v[0] == "e":
            return ("e", v[1], v[2], tuple(self.materialize(st, x, d + 1) for x in v[3]))
        return v

    def operand(self, st, o, depth):
        if o["k"] == "const":
            return self.constant(o)
        if o["k"] in ("copy", "move"):
            loc = self.place(st, o["p"], depth)
            if loc is None:
                return TOP
            return self.read(st, loc[0], loc[1])
        return TOP

    def optype(self, body, o):
        if o["k"] == "const":
            return o["ty"]
        if o["k"] in ("copy", "move"):
            return self.placetype(body, o["p"])
        return None

    def placetype(self, body, p):
        ty = body.locals[p[0]]
        for e in p[1]:
            if ty is None:
                return None
            if e == "*":
                t = self.p.types[ty]
                ty = t["a"][0] if t.get("a") else None
            elif e[0] == "f":
                ty = e[4]
            elif e[0] in ("i", "ci"):
                t = self.p.types[ty]
                ty = t["a"][0] if t.get("a") else None
            elif e[0] == "v":
                pass
            else:
                return None
        return ty

    # ---------------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, frame, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op.endswith("WithOverflow"):
            v = self.binop(st, base, a, b, frame, None)
            return ("t", None, (v, FALSE))
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y if y < 128 else 0, "Shr": lambda: x >> y,
                     "Div": lambda: x // y if y else None, "Rem": lambda: x % y if y else None,
                     "Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y),
                     "Le": lambda: int(x <= y), "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y)}[base]()
            except KeyError:
                r = None
            if r is not None:
                if base == "Add" and r > CAP and max(x, y) <= CAP:
                    return ("iv", CAP + 1, None)
                return ("c", r)
            return TOP
        ia, ib = self.ival(a), self.ival(b)
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if ia and ib and (a[0] == "iv" or b[0] == "iv"):
                r = cmp_iv(base, ia, ib)
                if r is not None:
                    return ("c", int(r))
                return TOP
            return self.pred(st, base, a, b)
        if base == "Add" and ia and ib and (a[0] == "iv" or b[0] == "iv"):
            lo = min(ia[0] + ib[0], CAP + 1)
            hi = None if ia[1] is None or ib[1] is None else ia[1] + ib[1]
            if hi is not None and hi > CAP:
                hi = None
            return ("c", lo) if lo == hi else ("iv", lo, hi)
        if base in ("BitXor", "BitAnd", "BitOr") and (self._boolish(st, a) or self._boolish(st, b)):
            r = self.boolop(base, a, b)
            if r is not None:
                return r
        na, nb = self.nm(a), self.nm(b)
        if na and nb and len(na) + len(nb) < TERM[0] and "~" not in na and "~" not in nb:
            if base in ("Add", "Mul", "BitXor", "BitAnd", "BitOr") and nb < na:
                na, nb = nb, na
            if na.count("(") + nb.count("(") < TERM[1]:
                return ("m", "%s(%s,%s)" % (base.lower(), na, nb), ty, ())
        return TOP

    def _boolish(self, st, v):
        if v[0] == "not":
            return True
        if v[0] == "c":
            return v[1] in (0, 1)
        return v[0] == "m" and v[2] is not None and self.p.types[v[2]]["k"] == "bool"

    def boolop(self, op, a, b):
        if a[0] != "c" and b[0] == "c":
            a, b = b, a
        if a[0] == "c" and a[1] in (0, 1):
            if op == "BitXor":
                return self.neg(b) if a[1] else b
            if op == "BitAnd":
                return b if a[1] else FALSE
            if op == "BitOr":
                return TRUE if a[1] else b
        return None

    def neg(self, v):
        if v[0] == "c":
            return ("c", 0 if v[1] else 1)
        if v[0] == "not":
            return v[1]
        if v[0] == "m":
            return ("not", v)
        return TOP

    def ival(self, v):
        if v[0] == "c":
            return (v[1], v[1])
        if v[0] == "iv":
            return (v[1], v[2])
        if v[0] == "m" and v[2] is not None and self.p.types[v[2]]["k"] == "uint":
            return None
        return None

    def pred(self, st, op, a, b):
        """Named comparison of two values; Eq/Lt canonical."""
        neg = False
        if op == "Ne":
            op, neg = "Eq", True
        elif op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Le":
            op, a, b, neg = "Lt", b, a, True
        elif op == "Ge":
            op, neg = "Lt", True
        na, nb = self.nm(a), self.nm(b)
        if na is None or nb is None or len(na) + len(nb) > TERM[2]:
            return TOP
        # comparisons with constants 0/1 of bools
        if op == "Eq":
            if na == nb:
                return FALSE if neg else TRUE
            if a[0] == "c" and b[0] != "c":
                a, b, na, nb = b, a, nb, na
            if b[0] == "c" and self._boolish(st, a):
                v = a if b[1] == 1 else self.neg(a)
                return self.neg(v) if neg else v
            if nb < na:
                na, nb = nb, na
        if op == "Lt" and na == nb:
            return TRUE if neg else FALSE
        if op == "Lt" and nb == "0" and b[0] == "c" and a[0] == "m" and a[2] is not None and self.p.types[a[2]]["k"] == "uint":
            return TRUE if neg else FALSE
        # x < 1  is  x == 0 ; 0 < x  is  !(x == 0)  for unsigned
        if op == "Lt" and a == ("c", 0) and b[0] == "m" and b[2] is not None and self.p.types[b[2]]["k"] == "uint":
            r = self.pred(st, "Ne", b, ("c", 0))
            return self.neg(r) if neg else r
        name = "%s(%s,%s)" % (op.lower(), na, nb)
        v = ("m", name, self.booltype(), ())
        v = self.norm(st, v)
        return self.neg(v) if neg else v

    def booltype(self):
        if not hasattr(self, "_bt"):
            self._bt = next((i for i, t in enumerate(self.p.types) if t["k"] == "bool"), None)
        return self._bt

    # ---------------------------------------------------------------- statements
    def rvalue(self, st, r, depth, frame, dty):
        k = r["k"]
        if k == "use":
            return self.operand(st, r["o"], depth)
        if k in ("ref", "rawptr"):
            loc = self.place(st, r["p"], depth)
            if loc is None:
                return TOP
            root, proj = loc
            # reborrow of symbolic pointer target: keep as location
            return self.mkref(root, proj)
        if k == "cast":
            v = self.operand(st, r["o"], depth)
            if v[0] == "m" and v[2] is not None:
                st_, dt = self.p.types[v[2]]["k"], self.p.types[r["ty"]]["k"]
                if dt in ("ref", "ptr", "adt"):
                    return ("m", v[1], v[2], v[3])
                return ("m", v[1], r["ty"], v[3])
            return v
        if k == "bin":
            return self.binop(st, r["op"], self.operand(st, r["l"], depth), self.operand(st, r["r"], depth), frame, dty)
        if k == "un":
            v = self.operand(st, r["o"], depth)
            if r["op"] == "Not":
                if v[0] == "c" and v[1] in (0, 1):
                    return ("c", 1 - v[1])
                if v[0] in ("m", "not"):
                    return self.neg(v)
                return TOP
            if r["op"] == "PtrMetadata":
                return self.lenof(st, v)
            if v[0] == "c" and r["op"] == "Neg":
                return ("c", -v[1])
            n = self.nm(v)
            return ("m", "%s(%s)" % (r["op"].lower(), n), dty, ()) if n and len(n) < 160 else TOP
        if k == "discr":
            loc = self.place(st, r["p"], depth)
            if loc is None:
                return TOP
            v = self.read(st, loc[0], loc[1])
            return self.discr(st, v)
        if k == "agg":
            ops = tuple(self.operand(st, x, depth) for x in r["ops"])
            if r["ak"] == "adt":
                ad = self.p.adts.get(r["d"])
                if ad and ad["enum"] or (ad is None and r.get("vn") and r["vn"] != r["d"].rsplit("::", 1)[-1]):
                    return ("e", r["d"], r["vi"], ops)
                if r["d"] in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                    return ops[0] if ops else TOP
                return ("t", r["d"], ops)
            if r["ak"] == "closure":
                return ("cl", r["d"], ops)
            return ("t", None, ops)
        if k == "repeat":
            m = re.search(r"; (\d+)\]$", self.p.types[dty]["s"]) if dty is not None else None
            v = self.operand(st, r["o"], depth)
            if m and int(m.group(1)) <= 16 and v[0] == "c":
                return ("t", None, (v,) * int(m.group(1)))
            return mk("repeat", None)
        return TOP

    def discr(self, st, v):
        if v[0] == "e":
            ad = self.p.adts.get(v[1])
            if ad:
                return ("c", ad["variants"][v[2]]["discr"])
            return ("c", v[2])
        if v[0] == "m":
            a = st.asm.get(v[1])
            if a is not None and a[0] == "ev":
                return ("c", a[2])
            for kk, vv in v[3]:
                if kk[0] == "v":
                    d = self.enumadt(v[2])
                    if d:
                        return ("c", d["variants"][kk[1]]["discr"])
            return ("dy", ("m", v[1], v[2], ()))
        return TOP

    def enumadt(self, ty):
        if ty is None:
            return None
        d = self.p.adt_of(ty)
        a = self.p.adts.get(d) if d else None
        return a if a and a["enum"] else None

    def lenof(self, st, v):
        if v[0] == "s":
            return ("c", len(v[1].encode()))
        if v[0] == "b":
            return ("c", len(v[1]))
        if v[0] == "kp" and v[1][0] == "t" and v[1][1] is None:
            return ("c", len(v[1][2]))
        loc = self.deref(v)
        if loc is None:
            return TOP
        w = self.read(st, loc[0], loc[1])
        if w[0] == "t" and w[1] is None:
            return ("c", len(w[2]))
        if w[0] in ("s", "b"):
            return ("c", len(w[1].encode() if w[0] == "s" else w[1]))
        n = self.nm(w)
        if n is None or len(n) > 200:
            return TOP
        r = ("m", "len(%s)" % n, self.usize(), ())
        return self.norm(st, r)

    def usize(self):
        if not hasattr(self, "_us"):
            self._us = next((i for i, t in enumerate(self.p.types) if t["s"] == "usize"), None)
        return self._us

    def stmt(self, st, s, depth):
        if s[0] == "=":
            frame = st.frames[depth]
            dty = None
            if not s[1][1]:
                dty = frame.body.locals[s[1][0]]
            v = self.rvalue(st, s[2], depth, frame, dty)
            loc = self.place(st, s[1], depth)
            if loc is not None:
                self.write(st, loc[0], loc[1], v)
                if st.mon is not None and loc[0][0] != "L" or loc[1]:
                    if self.mon is not None and st.mon is not None:
                        self.mon.on_write(self, st, loc[0], loc[1], v, frame, s[3])
            # moves out of whole locals leave nothing behind
            self._kill_moves(st, s[2], depth)
        elif s[0] == "sd":
            loc = self.place(st, s[1], depth)
            if loc is not None:
                v = self.read(st, loc[0], loc[1])
                if v[0] == "e":
                    self.write(st, loc[0], loc[1], ("e", v[1], s[2], v[3]))
                else:
                    self.write(st, loc[0], loc[1], TOP)
        elif s[0] == "dead":
            st.store.pop(("L", depth, s[1]), None)

    def _kill_moves(self, st, r, depth):
        if r["k"] == "use" and r["o"]["k"] == "move" and not r["o"]["p"][1]:
            st.store.pop(("L", depth, r["o"]["p"][0]), None)

    # ---------------------------------------------------------------- exploration
    def run(self, body, args=None, store=None, asm=None, mon=None):
        """Explore body from entry.  args: dict local index -> value (default: symbolic 'a<i>')."""
        st = State((Frame(body, 0, None, None, self.ctx(("root", body.path))),), dict(store or {}), dict(asm or {}),
                   frozenset(), self.mon.init if mon is None else mon)
        for i in range(1, body.nargs + 1):
            v = (args or {}).get(i)
            if v is None:
                v = mk(body.varname(i) or "a%d" % i, body.locals[i])
            st.store[("L", 0, i)] = v
        self.seen = {}
        self.work = deque([st])
        while self.work:
            s = self.work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided("step limit in %s" % body.path)
            if not self.steps & 255 and late():
                raise Undecided("out of time in %s" % body.path)
            for n in self.step(s):
                self.enqueue(n)
        return self

    def enqueue(self, st):
        top = st.frames[-1]
        depth = len(st.frames) - 1
        livein, addr = self.liveness(top.body)
        lv = livein[top.bb]
        dead = [r for r in st.store if r[0] == "L" and r[1] == depth and r[2] not in lv and r[2] not in addr]
        for r in dead:
            del st.store[r]
        self.gc(st)
        key = (tuple(f.key() for f in st.frames), st.mon, st.post)
        body_key = (frozenset(st.store.items()), frozenset(st.asm.items()))
        ent = self.seen.get(key)
        if ent is None:
            ent = self.seen[key] = [set(), None]
        if body_key in ent[0]:
            return
        ishead = top.bb in top.body.loop_heads()
        lim = self.head_k if ishead else self.join_k
        if len(ent[0]) >= lim:
            if ent[1] is None:
                ent[1] = st.copy()
                j = st
            else:
                j = self.join(ent[1], st, top)
                if j is None:
                    return
                ent[1] = j.copy()
            bk = (frozenset(j.store.items()), frozenset(j.asm.items()))
            if bk in ent[0]:
                return
            ent[0].add(bk)
            if len(ent[0]) > lim + 60:
                raise Undecided("no convergence at %s bb%d" % (top.body.path, top.bb))
            self.work.append(j)
            return
        ent[0].add(body_key)
        self.work.append(st)

    def gc(self, st):
        """Drop objects and assumptions nothing refers to."""
        objs = [r for r in st.store if r[0] == "O"]
        if len(objs) + len(st.asm) < 24:
            return
        names = set()
        for r, v in st.store.items():
            collect(v, names)
        collect(st.mon, names)
        big = "\0".join(names)
        for r in objs:
            base = r[1].rstrip("*")
            tok = first_tok(base)
            if tok is not None and tok not in big:
                del st.store[r]
        for k in list(st.asm):
            tok = first_tok(k)
            if tok is not None and tok not in big:
                del st.asm[k]

    def join(self, a, b, top):
        """Pointwise join of b into a; None if nothing changes."""
        changed = False
        store = {}
        tag = "%d:%d" % (top.ctx, top.bb)
        for r in set(a.store) | set(b.store):
            x, y = a.store.get(r), b.store.get(r)
            if x is None or y is None:
                if r[0] == "O":
                    # absent object = unmodified symbolic object
                    x = x if x is not None else self.base(a, r)
                    y = y if y is not None else self.base(b, r)
                else:
                    if x is not None:
                        changed = True
                    continue
            z = self.vjoin(x, y, "phi<%s|%s>" % (tag, self.locname(r, ())))
            if z != x:
                changed = True
            store[r] = z
        asm = {}
        for k, v in a.asm.items():
            if b.asm.get(k) == v:
                asm[k] = v
            else:
                changed = True
        if not changed:
            return None
        # phi symbols are summaries: forget what was assumed about them
        for k in [k for k in asm if "phi<" in k]:
            del asm[k]
        return State(b.frames, store, asm, a.made | b.made, b.mon, b.trail, b.post)

    def vjoin(self, x, y, name):
        if x == y:
            return x
        if x[0] == "m" and x[1].startswith("phi<") and x[1] == name and not x[3]:
            return x
        if x[0] in ("c", "iv") and y[0] in ("c", "iv"):
            a, b = self.ival(x), self.ival(y)
            lo = min(a[0], b[0])
            hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
            if x[0] == "iv" and (hi is None or hi > (x[2] if x[2] is not None else 1 << 62)):
                hi = None
            if x[0] == "c" and y[0] == "c" and {x[1], y[1]} == {0, 1}:
                return ("iv", 0, 1)
            if lo < 0:
                return TOP
            return ("iv", lo, hi)
        if x[0] == "t" and y[0] == "t" and x[1] == y[1] and len(x[2]) == len(y[2]):
            return ("t", x[1], tuple(self.vjoin(a, b, name + ".%d" % i) for i, (a, b) in enumerate(zip(x[2], y[2]))))
        if x[0] == "e" and y[0] == "e" and x[1:3] == y[1:3] and len(x[3]) == len(y[3]):
            return ("e", x[1], x[2], tuple(self.vjoin(a, b, name + ".%d" % i) for i, (a, b) in enumerate(zip(x[3], y[3]))))
        if x[0] == "m" and y[0] == "m" and x[1] == y[1]:
            keys = [k for k, _ in x[3]] + [k for k, _ in y[3] if k not in dict(x[3])]
            dx, dy = dict(x[3]), dict(y[3])
            over = []
            for k in keys:
                l = "%s" % (k,)
                cx = dx.get(k) or ("m", x[1] + "." + l, None, ())
                cy = dy.get(k) or ("m", x[1] + "." + l, None, ())
                over.append((k, self.vjoin(cx, cy, name + l)))
            over.sort(key=repr)
            return ("m", x[1], x[2], tuple(over))
        ty = None
        for v in (x, y):
            if v[0] == "m" and v[2] is not None:
                ty = v[2]
            elif v[0] == "e":
                ty = self.tyof_adt(v[1])
        if x is TOP or y is TOP:
            return TOP
        if x[0] in ("r", "kp", "s", "b") or y[0] in ("r", "kp", "s", "b"):
            if x[0] in ("s",) and y[0] in ("s",):
                return ("m", name, None, ())
            return TOP
        if len(name) > 160:
            return TOP
        return ("m", name, ty, ())

    def tyof_adt(self, d):
        c = getattr(self, "_tad", None)
        if c is None:
            c = self._tad = {}
            for i, t in enumerate(self.p.types):
                if t["k"] == "adt":
                    c.setdefault(t["d"], i)
        return c.get(d)

    # ---------------------------------------------------------------- one block
    def step(self, st):
        st = st.copy()
        depth = len(st.frames) - 1
        fr = st.frames[-1]
        blk = fr.body.bbs[fr.bb]
        self.visited_blocks.add((fr.body.path, fr.bb))
        for s in blk["s"]:
            self.stmt(st, s, depth)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [self.goto(st, t["t"])]
        if k == "assert":
            return [self.goto(st, t["t"])]
        if k == "drop":
            loc = self.place(st, t["p"], depth)
            if loc is not None:
                self.mon.on_drop(self, st, loc[0], loc[1], t["ty"], fr, t)
                if loc[0][0] == "L" and not loc[1]:
                    st.store.pop(loc[0], None)
            return [self.goto(st, t["t"])]
        if k == "switch":
            return self.switch(st, t, depth)
        if k == "return":
            v = self.read(st, ("L", depth, 0), ())
            return self.ret(st, v)
        if k == "call":
            return self.call(st, t, depth)
        return []

    def goto(self, st, bb):
        st.frames = st.frames[:-1] + (st.frames[-1].at(bb),)
        return st

    def ret(self, st, v):
        depth = len(st.frames) - 1
        fr = st.frames[-1]
        if depth == 0:
            self.mon.on_exit(self, st, v)
            return []
        # values referring to this frame's locals would dangle; Rust forbids it
        for r in [r for r in st.store if r[0] == "L" and r[1] == depth]:
            del st.store[r]
        st.frames = st.frames[:-1]
        if fr.ret == "post":
            cont = st.post[-1]
            st.post = st.post[:-1]
            return resume_post(self, st, cont, v)
        if fr.ret is None:
            return []
        if fr.dest is not None:
            self.write(st, fr.dest[0], fr.dest[1], v)
        return [self.goto(st, fr.ret)]

    def switch(self, st, t, depth):
        v = self.operand(st, t["d"], depth)
        fr = st.frames[-1]
        v = self.norm(st, v)
        if v[0] == "c":
            for val, tgt in t["ts"]:
                if val == v[1]:
                    return [self.goto(st, tgt)]
            return [self.goto(st, t["else"])]
        out = []
        vals = [x[0] for x in t["ts"]]
        if v[0] in ("m", "not"):
            neg = v[0] == "not"
            y = v[1] if neg else v
            isbool = y[2] is not None and self.p.types[y[2]]["k"] == "bool" or vals == [0] and neg
            summ = "~" in y[1]
            for val, tgt in t["ts"]:
                n = st.copy()
                if not summ and not y[3]:
                    n.asm[y[1]] = ("c", (1 - val) if neg else val)
                n.note("%s:%d %s=%s" % (fr.body.file, t["ln"], y[1], (1 - val) if neg else val))
                out.append(self.goto(n, tgt))
            n = st.copy()
            if isbool and len(vals) == 1:
                o = 1 - vals[0]
                if not summ and not y[3]:
                    n.asm[y[1]] = ("c", (1 - o) if neg else o)
                n.note("%s:%d %s=%s" % (fr.body.file, t["ln"], y[1], (1 - o) if neg else o))
                out.append(self.goto(n, t["else"]))
            elif isbool and len(vals) >= 2:
                pass
            else:
                n.note("%s:%d %s not in %s" % (fr.body.file, t["ln"], y[1], vals))
                out.append(self.goto(n, t["else"]))
            return out
        if v[0] == "dy":
            y = v[1]
            ad = self.enumadt(y[2])
            summ = "~" in y[1]
            if ad is None:
                for val, tgt in t["ts"]:
                    n = st.copy()
                    if not summ:
                        n.asm[y[1]] = ("ev", val, val)
                    n.note("%s:%d %s is #%s" % (fr.body.file, t["ln"], y[1], val))
                    out.append(self.goto(n, tgt))
                out.append(self.goto(st.copy(), t["else"]))
                return out
            left = {x["discr"]: i for i, x in enumerate(ad["variants"])}
            for val, tgt in t["ts"]:
                if val not in left:
                    continue
                vi = left.pop(val)
                n = st.copy()
                if not summ:
                    n.asm[y[1]] = ("ev", vi, val)
                n.note("%s:%d %s is %s" % (fr.body.file, t["ln"], y[1], ad["variants"][vi]["name"]))
                out.append(self.goto(n, tgt))
            for d, vi in left.items():
                n = st.copy()
                if not summ:
                    n.asm[y[1]] = ("ev", vi, d)
                n.note("%s:%d %s is %s" % (fr.body.file, t["ln"], y[1], ad["variants"][vi]["name"]))
                out.append(self.goto(n, t["else"]))
                if summ:
                    break
            return out
        if v[0] == "iv":
            for val, tgt in t["ts"]:
                if val >= v[1] and (v[2] is None or val <= v[2]):
                    out.append(self.goto(st.copy(), tgt))
            if not (v[2] is not None and v[2] - v[1] + 1 <= sum(1 for x in vals if v[1] <= x <= v[2])):
                out.append(self.goto(st.copy(), t["else"]))
            return out
        self.blind += 1
        for tgt in dict.fromkeys([x[1] for x in t["ts"]] + [t["else"]]):
            n = st.copy()
            n.note("%s:%d branch" % (fr.body.file, t["ln"]))
            out.append(self.goto(n, tgt))
        return out

    # ---------------------------------------------------------------- calls
    def call(self, st, t, depth):
        fr = st.frames[-1]
        c = self.p.callee(t)
        call = Call()
        call.callee = c
        call.term = t
        call.body = fr.body
        call.bb = fr.bb
        call.args = [self.operand(st, a, depth) for a in t["args"]]
        call.argtys = [self.optype(fr.body, a) for a in t["args"]]
        call.dest = self.place(st, t["d"], depth)
        call.site = "%d:%d" % (fr.ctx, fr.bb)
        for a in t["args"]:
            if a["k"] == "move" and not a["p"][1]:
                st.store.pop(("L", depth, a["p"][0]), None)
        fnval = None
        if c is None:
            fnval = self.operand(st, t["f"], depth)
        r = self.mon.on_call(self, st, call)
        if r is not None:
            return self.finish(r, call, t)
        if t["t"] is None:
            self.mon.on_diverge(self, st, call)
            return []
        if c is not None:
            m = self.models.get(c.fn) or self.models.get(c.res)
            if m is None and c.fn:
                m = model_by_suffix(c)
            if m is not None:
                r = m(self, st, call)
                if r == "pushed":
                    return self._pushed
                if r is not None:
                    return self.finish(r, call, t)
            if c.name in ("call", "call_mut", "call_once") and c.trait and c.trait.startswith("core::ops::function::Fn"):
                r = self.call_value(st, call, call.args[0], self.untuple(st, call.args[1]))
                if r is not None:
                    return r
            target = c.res if c.res in self.p.bodies else None
            if target is None and self.dyn and c.trait and call.args:
                target = self.dyn(self, st, call)
            if target is None and c.fn in self.p.bodies and not c.virt:
                # unresolved generic call to a provided trait method: do not guess
                target = None
            if target and depth < self.max_depth and self.mon.relevant(target) and sum(
                    f.body.path == target for f in st.frames) < self.recursion:
                return [self.enter(st, self.p.bodies[target], call.args, call.dest, t["t"], call)]
        elif fnval is not None:
            r = self.call_value(st, call, fnval, call.args)
            if r is not None:
                return r
        return self.finish(self.opaque_call(st, call), call, t)

    def untuple(self, st, v):
        if v[0] == "t":
            return list(v[2])
        return [self.child(v, ("f", 0), None, ".0"), self.child(v, ("f", 1), None, ".1")] if v[0] == "m" else [TOP, TOP]

    def enter(self, st, body, args, dest, ret, call, cont=None):
        fr = st.frames[-1]
        self.inlined.add(body.path)
        ctx = self.ctx((fr.ctx, fr.bb, body.path))
        d = len(st.frames)
        for r in [r for r in st.store if r[0] == "L" and r[1] == d]:
            del st.store[r]
        nf = Frame(body, 0, dest, ret, ctx)
        st.frames = st.frames + (nf,)
        for i in range(1, body.nargs + 1):
            v = args[i - 1] if i - 1 < len(args) else TOP
            if v[0] == "m" and v[2] is None:
                v = ("m", v[1], body.locals[i], v[3])
            st.store[("L", d, i)] = v
        return st

    def closure_body(self, st, f):
        """(body path, env value) of a callable value or None."""
        if f[0] == "r":
            f = self.read(st, f[1], f[2])
        if f[0] == "kp":
            f = f[1]
        if f[0] == "cl" and f[1] in self.p.bodies:
            return f[1], f
        if f[0] == "fn" and f[1] in self.p.bodies:
            return f[1], None
        return None

    def closure_args(self, st, f, path, args):
        b = self.p.bodies[path]
        if f[0] == "fn" or (f[0] == "r" and self.read(st, f[1], f[2])[0] == "fn"):
            return list(args)
        # closure bodies take (env, args...) ; env by ref or by value
        env = f
        t = self.p.types[b.locals[1]]
        if t["k"] == "ref" and f[0] == "cl":
            env = ("kp", f)
        elif t["k"] != "ref" and f[0] == "r":
            env = self.read(st, f[1], f[2])
        return [env] + list(args)

    def call_value(self, st, call, f, args):
        cb = self.closure_body(st, f)
        if cb is None or len(st.frames) > self.max_depth:
            return None
        path = cb[0]
        if not self.mon.relevant(path):
            return None
        if any(x.body.path == path for x in st.frames):
            return None
        return [self.enter(st, self.p.bodies[path], self.closure_args(st, f, path, args), call.dest, call.term["t"], call)]

    def opaque_call(self, st, call):
        fr = st.frames[-1]
        c = call.callee
        self.opaque[c.target if c else "?"] = self.opaque.get(c.target if c else "?", 0) + 1
        dty = None
        if call.term["d"] is not None:
            dty = self.placetype(fr.body, call.term["d"])
        if self.uf and c is not None and not (dty is not None and self.p.contains_adt(dty, lambda d: d == "alloc::boxed::Box")):
            n = self.ufname(st, call)
            if n is not None:
                return [(self.norm(st, ("m", n, dty, ())), st)]
        for i, a in enumerate(call.args):
            self.havoc_arg(st, fr, a, call.argtys[i], i)
        return [(self.fresh(st, fr, "c", dty), st)]

    def ufname(self, st, call):
        """Deterministic name for a call without mutable arguments, or None."""
        ns = []
        for i, a in enumerate(call.args):
            ty = call.argtys[i]
            t = self.p.types[ty] if ty is not None else None
            if t is not None and t["k"] == "ref" and t.get("m"):
                return None
            v = deepval(self, st, a)
            n = self.nm(v)
            if n is None:
                return None
            ns.append(n)
        n = "%s(%s)" % (short(call.callee.fn), ",".join(ns))
        return n if len(n) < TERM[2] + 40 else None

    def havoc_arg(self, st, fr, a, ty, i):
        if ty is None:
            return
        t = self.p.types[ty]
        if t["k"] == "ref" and t.get("m"):
            loc = self.deref(a)
            if loc is not None and loc[0][0] != "K":
                self.write(st, loc[0], loc[1], self.fresh(st, fr, "h%d_" % i, t["a"][0]))
        elif a[0] in ("cl", "t"):
            parts = a[2]
            for j, x in enumerate(parts):
                if x[0] == "r":
                    pass

    def finish(self, outcomes, call, t):
        """outcomes: [(value|None, state)]"""
        out = []
        for v, n in outcomes:
            if v is None or t["t"] is None:
                continue
            if call.dest is not None:
                loc = self.place(n, t["d"], len(n.frames) - 1)
                if loc is not None:
                    self.write(n, loc[0], loc[1], v)
            out.append(self.goto(n, t["t"]))
        return out

    # ------------------------------------------------------ helpers for monitors
    def fork_enum(self, st, v):
        """[(variant index, state, payload reader)] for an enum-typed value."""
        if v[0] == "e":
            return [(v[2], st)]
        if v[0] == "m":
            a = st.asm.get(v[1])
            if a is not None and a[0] == "ev":
                return [(a[1], st)]
            ad = self.enumadt(v[2])
            if ad:
                out = []
                for i, var in enumerate(ad["variants"]):
                    n = st.copy()
                    if "~" not in v[1]:
                        n.asm[v[1]] = ("ev", i, var["discr"])
                    out.append((i, n))
                return out
        return None

    def payload(self, v, vi, idx=0, ty=None, label=None):
        if v[0] == "e":
            return v[3][idx] if idx < len(v[3]) else TOP
        if v[0] == "m":
            c = self.child(v, ("v", vi), None, "@%s" % (label or vi))
            return self.child(c, ("f", idx), ty, ".%d" % idx)
        return TOP

    def fork_bool(self, st, v):
        v = self.norm(st, v)
        if v[0] == "c":
            return [(v[1], st)]
        neg = v[0] == "not"
        y = v[1] if neg else v
        out = []
        for b in (0, 1):
            n = st.copy()
            if y[0] == "m" and "~" not in y[1] and not y[3]:
                n.asm[y[1]] = ("c", 1 - b if neg else b)
            out.append((b, n))
        return out

    def pointee(self, st, v):
        loc = self.deref(v)
        if loc is None:
            return TOP
        return self.read(st, loc[0], loc[1])


def deepval(eng, st, v, d=0):
    while d < 5:
        d += 1
        if v[0] in ("r", "kp"):
            v = eng.pointee(st, v)
        elif v[0] == "m" and not v[3] and v[2] is not None and eng.p.types[v[2]]["k"] == "ref":
            v = eng.pointee(st, v)
        else:
            break
    return v


def short(path):
    path = path.replace("::<T, A>", "").replace("::<T, E>", "").replace("::<T>", "")
    i = path.rfind("::")
    j = path.rfind("::", 0, i) if i > 0 else -1
    return path[j + 2:] if j >= 0 else path


def cmp_iv(op, a, b):
    al, ah = a
    bl, bh = b
    inf = 1 << 70
    ah = inf if ah is None else ah
    bh = inf if bh is None else bh
    if op == "Eq":
        if ah < bl or bh < al:
            return False
        return True if al == ah == bl == bh else None
    if op == "Ne":
        r = cmp_iv("Eq", a, b)
        return None if r is None else not r
    if op == "Lt":
        if ah < bl:
            return True
        if al >= bh:
            return False
        return None
    if op == "Le":
        if ah <= bl:
            return True
        if al > bh:
            return False
        return None
    if op == "Gt":
        return cmp_iv("Lt", b, a)
    if op == "Ge":
        return cmp_iv("Le", b, a)


def subst(v, tok, old):
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "m":
        nm = v[1]
        ov = subst_seq(v[3], tok, old)
        if tok in nm:
            return ("m", nm.replace(tok, old), v[2], ov)
        if ov is not v[3]:
            return ("m", nm, v[2], ov)
        return v
    return subst_seq(v, tok, old)


def subst_seq(v, tok, old):
    out = None
    for i, x in enumerate(v):
        if isinstance(x, tuple):
            y = subst(x, tok, old)
        elif isinstance(x, str) and tok in x:
            y = x.replace(tok, old)
        else:
            y = x
        if y is not x:
            if out is None:
                out = list(v)
            out[i] = y
    return v if out is None else tuple(out)


def subst_any(v, tok, old):
    if isinstance(v, tuple):
        return subst_seq(v, tok, old)
    if isinstance(v, frozenset):
        n = frozenset(subst_any(x, tok, old) for x in v)
        return v if n == v else n
    if isinstance(v, str) and tok in v:
        return v.replace(tok, old)
    return v


def collect(v, names):
    if isinstance(v, tuple):
        for x in v:
            collect(x, names)
    elif isinstance(v, frozenset):
        for x in v:
            collect(x, names)
    elif isinstance(v, str):
        names.add(v)


def first_tok(s):
    i = s.find("<")
    j = s.find("~")
    if i < 0 or (0 <= j < i):
        i = j
    if i < 0:
        return None
    k = s.find(">", i)
    return s[i:k + 1] if k > 0 else None


from .models import MODELS, model_by_suffix, resume_post  # noqa: E402
