"""Shared helpers for the property checks."""
from ..absint import Engine, Monitor, Undecided, late, TOP, TRUE, FALSE, UNIT, mk, deepval
from ..models import RES, OPT, ORD, LESS, EQUAL, GREATER, split2

ORDS = [LESS, EQUAL, GREATER]
ORDN = ["Less", "Equal", "Greater"]


class Collect(Monitor):
    """Enumerates all (result, state) outcomes of a function; `hook` intercepts calls."""

    def __init__(self, hook=None, relevant=None, init=(), write=None):
        self.outs = []
        self.div = []
        self.hook = hook
        self.rel = relevant
        self.init = init
        self.write = write

    def relevant(self, path):
        return self.rel(path) if self.rel else True

    def on_call(self, eng, st, call):
        return self.hook(eng, st, call) if self.hook else None

    def on_exit(self, eng, st, val):
        self.outs.append((val, st))

    def on_diverge(self, eng, st, call):
        self.div.append((call, st))

    def on_write(self, eng, st, root, proj, val, frame, line):
        if self.write:
            self.write(eng, st, root, proj, val, frame, line)


def outcomes(prog, path, args=None, store=None, asm=None, hook=None, relevant=None, init=(), uf=True, depth=10,
             steps=60000, write=None, head_k=6, join_k=120, lists=False, dyn=None, recursion=1):
    b = prog.bodies.get(path)
    if b is None:
        raise Undecided("no function " + path)
    m = Collect(hook, relevant, init, write)
    e = Engine(prog, m, max_depth=depth, max_steps=steps, uf=uf, head_k=head_k, join_k=join_k)
    e.lists = lists
    e.dyn = dyn
    e.recursion = recursion
    e.run(b, args, store, asm)
    m.eng = e
    return m


def adt_ty(prog, adt):
    for i, t in enumerate(prog.types):
        if t["k"] == "adt" and t.get("d") == adt:
            return i
    raise Undecided("no type " + adt)


def variants(prog, adt):
    a = prog.adts.get(adt)
    if a is None:
        raise Undecided("no type " + adt)
    return a["variants"]


def ev(prog, adt, name):
    """Assumption value: enum is variant `name`."""
    for i, v in enumerate(variants(prog, adt)):
        if v["name"] == name:
            return ("ev", i, v["discr"])
    raise Undecided("no variant %s::%s" % (adt, name))


def enumval(prog, adt, name, fields=()):
    for i, v in enumerate(variants(prog, adt)):
        if v["name"] == name:
            return ("e", adt, i, tuple(fields))
    raise Undecided("no variant %s::%s" % (adt, name))


def boolof(eng, st, v):
    """Python bool of an abstract bool under st's assumptions, or None."""
    v = eng.norm(st, v)
    if v[0] == "c":
        return bool(v[1])
    if v[0] == "not":
        x = boolof(eng, st, v[1])
        return None if x is None else not x
    return None


def variant_of(eng, st, v):
    if v[0] == "e":
        return v[2]
    if v[0] == "m":
        a = st.asm.get(v[1])
        if a and a[0] == "ev":
            return a[1]
        for kk, vv in v[3]:
            if kk[0] == "v":
                return kk[1]
    return None


def where(b):
    return "%s:%s in %s" % (b.file, b.line, b.path)


def impls(prog, trait, method):
    """[(self type string, impl fn path)] of a trait method, sorted."""
    return sorted(prog.impl_of.get(trait + "::" + method, []))


def find_fn(prog, path):
    b = prog.bodies.get(path)
    if b is None:
        raise Undecided("no function " + path)
    return b


def obj(prog, body, i, name, fields):
    """(arg value, store) for a reference argument whose pointee has the given field values."""
    ty = body.locals[i]
    t = prog.types[ty]
    pt = t["a"][0] if t["k"] == "ref" else ty
    adt = prog.adt_of(pt)
    fs = prog.adts[adt]["variants"][0]["fields"]
    over = []
    for k, v in fields.items():
        idx = [j for j, f in enumerate(fs) if f["name"] == k]
        if not idx:
            raise Undecided("no field %s in %s" % (k, adt))
        over.append((("f", idx[0]), v))
    over.sort(key=repr)
    val = ("m", name + "*", pt, tuple(over))
    if t["k"] != "ref":
        return ("m", name, ty, tuple(over)), {}
    return mk(name, ty), {("O", name + "*", pt): val}


def tystr(prog, ty):
    return prog.types[ty]["s"] if ty is not None else ""


def is_ord(prog, ty):
    return ty is not None and prog.types[ty].get("d") == ORD


def is_bool(prog, ty):
    return ty is not None and prog.types[ty]["k"] == "bool"


def inherent(prog, adt):
    """Inherent methods of a type."""
    pre = adt + "::"
    return sorted(p for p in prog.bodies if p.startswith(pre) and "::" not in p[len(pre):] and "#" not in p)


def field_of(prog, adt, pred):
    return [f["name"] for f in prog.adts[adt]["variants"][0]["fields"] if pred(f)]


_PAR = {}


def _par_one(i):
    from ..report import Report
    import traceback
    fn, items, pid = _PAR["job"]
    rep = Report(pid)
    try:
        if late():
            raise Undecided("out of time")
        fn(items[i], rep)
    except Undecided as e:
        rep.unk(fn.__name__, str(items[i])[:80], e)
    except Exception as e:
        traceback.print_exc()
        rep.unk(fn.__name__, str(items[i])[:80], "%s: %s" % (type(e).__name__, e))
    return rep.obligations, rep.violations, rep.undecided, rep.analysed


def par(rep, items, fn, chunk=1):
    """Judge items independently (in forked processes); results are merged in order."""
    import multiprocessing, os
    items = list(items)
    _PAR["job"] = (fn, items, rep.pid)
    n = min(8, os.cpu_count() or 1, len(items))
    if n <= 1 or os.environ.get("CDX_SERIAL"):
        res = [_par_one(i) for i in range(len(items))]
    else:
        with multiprocessing.get_context("fork").Pool(n) as pool:
            res = pool.map(_par_one, range(len(items)), chunksize=chunk)
    for ob, vi, un, an in res:
        rep.obligations += ob
        for v in vi:
            if not any(x["key"] == v["key"] for x in rep.violations):
                rep.violations.append(v)
        rep.undecided += un
        for k, v in an.items():
            rep.count(k, v)
