"""Resolved-program model: bodies (MIR), types, ADTs, trait impls, call graph."""
import json, os, re
from . import facts


class Callee:
    __slots__ = ("fn", "res", "virt", "trait", "ga", "ra", "name")

    def __init__(self, j):
        self.fn = j.get("fn")
        self.res = j.get("res")
        self.virt = j.get("virt")
        self.trait = j.get("trait")
        self.ga = j.get("ga", [])
        self.ra = j.get("ra", [])
        self.name = self.fn.rsplit("::", 1)[-1] if self.fn else None

    @property
    def target(self):
        return self.res or self.virt or self.fn

    def __repr__(self):
        return self.target or "?"


class Body:
    __slots__ = ("path", "kind", "file", "line", "nargs", "locals", "vars", "exp", "bbs", "succ_cache",
                 "heads_cache", "prog", "live_cache", "dom_cache")

    def __init__(self, j, prog):
        self.path = j["path"]
        self.kind = j["kind"]
        self.file = j["file"]
        self.line = j["line"]
        self.nargs = j["args"]
        self.locals = j["locals"]
        self.vars = j["vars"]
        self.exp = j["exp"]
        self.bbs = j["bbs"]
        self.prog = prog
        self.succ_cache = None
        self.heads_cache = None
        self.live_cache = None
        self.dom_cache = None

    def varname(self, local):
        for n, p in self.vars:
            if p[0] == local and not p[1]:
                return n
        return None

    def succ(self, i):
        """Normal (non-unwind) successors."""
        if self.succ_cache is None:
            self.succ_cache = [self._succ(b["t"]) for b in self.bbs]
        return self.succ_cache[i]

    @staticmethod
    def _succ(t):
        k = t["k"]
        if k == "goto" or k == "drop" or k == "assert":
            return [t["t"]]
        if k == "switch":
            r = [x[1] for x in t["ts"]]
            r.append(t["else"])
            return list(dict.fromkeys(r))
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        return []

    def loop_heads(self):
        """Targets of retreating edges of a DFS from entry."""
        if self.heads_cache is None:
            heads, color = set(), {}
            stack = [(0, iter(self.succ(0)))]
            color[0] = 1
            while stack:
                n, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succ(s))))
                        break
                    if c == 1:
                        heads.add(s)
                else:
                    color[n] = 2
                    stack.pop()
            self.heads_cache = heads
        return self.heads_cache

    def reach(self, start=0, avoid=()):
        seen, todo = set(), [start]
        while todo:
            n = todo.pop()
            if n in seen or n in avoid:
                continue
            seen.add(n)
            todo.extend(self.succ(n))
        return seen

    def calls(self, cleanup=False):
        for i, b in enumerate(self.bbs):
            if b["c"] and not cleanup:
                continue
            t = b["t"]
            if t["k"] == "call":
                yield i, t

    def __repr__(self):
        return "<%s>" % self.path


class Program:
    def __init__(self, d=None):
        d = d or facts.make_facts()
        self.types = []
        self._tid = {}
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.fns = {}
        for c in ("cdx", "bin"):
            with open(os.path.join(d, c + ".json")) as f:
                j = json.load(f)
            self._load(j)
        self._fix_cross()
        self.impl_of = {}      # trait method path -> [(self type str, impl fn path)]
        self.impls_by_trait = {}
        for im in self.impls:
            if im["trait"]:
                self.impls_by_trait.setdefault(im["trait"], []).append(im)
                for n, p, t in im["items"]:
                    if t:
                        self.impl_of.setdefault(t, []).append((self.types[im["self"]]["s"], p))
        self._callers = None

    def _load(self, j):
        # intern types globally by printed form
        m = {}
        ts = j["types"]
        for i, t in enumerate(ts):
            key = t["s"] + "|" + t.get("k", "")
            if key not in self._tid:
                self._tid[key] = len(self.types)
                self.types.append(dict(t))
                m[i] = (self._tid[key], True)
            else:
                m[i] = (self._tid[key], False)
        for i, t in enumerate(ts):
            g, new = m[i]
            if new and "a" in t:
                self.types[g]["a"] = [m[x][0] for x in t["a"]]
        mm = {i: g for i, (g, _) in m.items()}

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "const":
                    if "ty" in x:
                        x["ty"] = mm[x["ty"]]
                    if "ga" in x:
                        x["ga"] = [mm[y] for y in x["ga"]]
                    if "ra" in x:
                        x["ra"] = [mm[y] for y in x["ra"]]
                    return
                if x.get("k") in ("cast", "drop") and "ty" in x:
                    x["ty"] = mm[x["ty"]]
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                if len(x) == 5 and x and x[0] == "f" and isinstance(x[4], int):
                    x[4] = mm[x[4]]
                    return
                for v in x:
                    walk(v)

        for b in j["bodies"]:
            b["locals"] = [mm[x] for x in b["locals"]]
            walk(b["vars"])
            walk(b["bbs"])
            bo = Body(b, self)
            self.bodies[bo.path] = bo
        for a in j["adts"]:
            for v in a["variants"]:
                for f in v["fields"]:
                    if f["ty"] is not None:
                        f["ty"] = mm[f["ty"]]
            old = self.adts.get(a["path"])
            if old is None or a["local"]:
                self.adts[a["path"]] = a
        for im in j["impls"]:
            im["self"] = mm[im["self"]]
            self.impls.append(im)
        for t in j["traits"]:
            self.traits[t["path"]] = t
        for f in j["fns"]:
            self.fns[f["path"]] = f

    def _fix_cross(self):
        pass

    # ---- types
    def ty(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]["s"]

    def peel(self, i):
        while self.types[i]["k"] in ("ref", "ptr"):
            i = self.types[i]["a"][0]
        return i

    def adt_of(self, i):
        t = self.types[i]
        return t.get("d") if t["k"] == "adt" else None

    def contains_adt(self, i, pred, seen=None, depth=0):
        """Does a value of type i own (transitively through fields and generic args) an ADT satisfying pred?"""
        seen = seen if seen is not None else set()
        if i in seen:
            return False
        seen.add(i)
        t = self.types[i]
        if t["k"] == "adt":
            if pred(t["d"]):
                return True
            for a in t.get("a", []):
                if self.contains_adt(a, pred, seen):
                    return True
            ad = self.adts.get(t["d"])
            if ad:
                for v in ad["variants"]:
                    for f in v["fields"]:
                        if f["ty"] is not None and self.contains_adt(f["ty"], pred, seen):
                            return True
            return False
        if t["k"] == "dyn":
            return pred("dyn " + t.get("d", ""))
        for a in t.get("a", []):
            if self.contains_adt(a, pred, seen):
                return True
        return False

    # ---- calls
    def callee(self, t):
        f = t["f"]
        if f.get("k") == "const" and "fn" in f:
            return Callee(f)
        return None

    def local_targets(self, c):
        """Bodies a call may enter: resolved body, or every impl for dynamic/unresolved trait calls."""
        if c is None:
            return []
        if c.res and c.res in self.bodies:
            return [c.res]
        if c.res and not c.virt and c.res not in self.impl_of and c.trait is None:
            return []
        key = c.virt or c.fn
        out = [p for _, p in self.impl_of.get(key, []) if p in self.bodies]
        if out or c.virt:
            if key in self.bodies:
                out = out + [key]
            return out
        return []

    def closures_in(self, body):
        """Closure bodies created in (or nested under) a body."""
        pre = body.path + "::{closure#"
        return [p for p in self.bodies if p.startswith(pre)]

    def fn_refs(self, body):
        """Function items mentioned as values (not called) in a body."""
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "const":
                    if "fn" in x:
                        out.add(x.get("res") or x["fn"])
                    if "fnref" in x:
                        out.add(x["fnref"])
                    return
                if x.get("k") == "agg" and x.get("ak") == "closure":
                    out.add(x["d"])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for b in body.bbs:
            if b["c"]:
                continue
            walk(b["s"])
            t = b["t"]
            if t["k"] == "call":
                walk(t["args"])
        return out

    def callgraph(self):
        if self._callers is None:
            g = {}
            for p, b in self.bodies.items():
                s = set()
                for i, t in b.calls():
                    c = self.callee(t)
                    if c:
                        s.update(self.local_targets(c))
                        s.add(c.target)
                        if c.fn:
                            s.add(c.fn)
                s.update(self.fn_refs(b))
                g[p] = s
            self._callers = g
        return self._callers

    def reaches(self, pred):
        """Set of bodies from which a callee satisfying pred is reachable."""
        g = self.callgraph()
        rev = {}
        seeds = set()
        for p, s in g.items():
            for x in s:
                rev.setdefault(x, set()).add(p)
                if pred(x):
                    seeds.add(p)
        seen, todo = set(), list(seeds)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo.extend(rev.get(n, ()))
        return seen

    def reachable_from(self, roots):
        g = self.callgraph()
        seen, todo = set(), list(roots)
        while todo:
            n = todo.pop()
            if n in seen or n not in self.bodies:
                continue
            seen.add(n)
            todo.extend(g.get(n, ()))
        return seen

    def find(self, suffix):
        return [b for p, b in self.bodies.items() if p == suffix or p.endswith("::" + suffix)]

    def body(self, path):
        return self.bodies.get(path)


def pretty(body, prog):
    """Readable MIR, for debugging."""
    def pl(p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s += "." + str(e[2] if e[2] is not None else e[1])
            elif e[0] == "v":
                s += " as " + str(e[2])
            elif e[0] == "i":
                s += "[_%d]" % e[1]
            else:
                s += str(e)
        return s

    def op(o):
        if o["k"] in ("copy", "move"):
            return ("" if o["k"] == "copy" else "move ") + pl(o["p"])
        if o["k"] == "const":
            for k in ("str", "v", "fn", "static", "bytes", "named", "prom", "fnref"):
                if k in o:
                    return "%s:%r" % (k, o[k])
            return "const " + prog.tstr(o["ty"])
        return "?"

    def rv(r):
        k = r["k"]
        if k == "use":
            return op(r["o"])
        if k == "ref":
            return ("&mut " if r["m"] else "&") + pl(r["p"])
        if k == "discr":
            return "discr(%s)" % pl(r["p"])
        if k == "bin":
            return "%s(%s, %s)" % (r["op"], op(r["l"]), op(r["r"]))
        if k == "un":
            return "%s(%s)" % (r["op"], op(r["o"]))
        if k == "agg":
            return "%s%s{%s}" % (r.get("d", r["ak"]), "::" + r["vn"] if "vn" in r else "", ", ".join(op(x) for x in r["ops"]))
        if k == "cast":
            return "%s as %s (%s)" % (op(r["o"]), prog.tstr(r["ty"]), r["ck"])
        return str(r)[:100]
    out = ["fn %s (%s:%d)" % (body.path, body.file, body.line)]
    for i, l in enumerate(body.locals):
        out.append("  let _%d: %s %s" % (i, prog.tstr(l), body.varname(i) or ""))
    for i, b in enumerate(body.bbs):
        if b["c"]:
            continue
        out.append(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=":
                out.append("    %s = %s" % (pl(s[1]), rv(s[2])))
        t = b["t"]
        if t["k"] == "call":
            c = prog.callee(t)
            out.append("    %s = CALL %s(%s) -> %s   [%d]" % (pl(t["d"]), c.target if c else op(t["f"]), ", ".join(op(x) for x in t["args"]), t["t"], t["ln"]))
        elif t["k"] == "switch":
            out.append("    SWITCH %s %s else %s [%d]" % (op(t["d"]), t["ts"], t["else"], t["ln"]))
        elif t["k"] == "drop":
            out.append("    DROP %s -> %s" % (pl(t["p"]), t["t"]))
        else:
            out.append("    %s -> %s" % (t["k"], t.get("t")))
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    pr = Program()
    for a in sys.argv[1:]:
        for p, b in pr.bodies.items():
            if a in p:
                print(pretty(b, pr))
