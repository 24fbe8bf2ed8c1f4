"""C11: sorting and merging neither lose nor invent records."""
import itertools, re
from ..world import World, isok, iserr, tools, REC, NONE, WR
from ..absint import Undecided, UNIT, TRUE, FALSE, mk, deepval
from ..models import ORD, OPT
from .c04 import OPAQUE
from .c12 import Keyed, Sized
from .common import par, where


class Items(Keyed):
    """Sort items are opaque; comparisons answer by key."""


def in_place_sort(prog, rep, tier):
    """Every function of the sort module that rearranges a slice of items in place (given only data, items and
    comparison) is interpreted on lists of 0..6 opaque items for every order pattern of their keys: the result is a
    permutation of the list."""
    cands = []
    for p, b in sorted(prog.bodies.items()):
        if not p.startswith("cdx::sort::") or "{closure" in p:
            continue
        tys = [prog.types[b.locals[i + 1]]["s"] for i in range(b.nargs)]
        if len(tys) == 3 and any(re.match(r"&('\S+ )?mut \[.*Item\]", t) for t in tys) and any("LineCompList" in t for t in tys):
            cands.append((p, tys))
    if not cands:
        rep.unk("in_place_sort", "cdx::sort", "no in-place sort of items")
    js = []
    for p, tys in cands:
        for n in range(0, (8 if tier == "thorough" else 7)):
            for keys in itertools.product(range(n), repeat=n) if n < 5 else itertools.permutations(range(n)):
                if set(keys) == set(range(len(set(keys)))) or n == 0:
                    js.append((p, tys, n, keys))
    par(rep, js, lambda j, r: place_one(prog, r, *j), chunk=16)


def place_one(prog, rep, p, tys, n, keys):
    w = Items(prog, files=(), opaque=OPAQUE)
    w.keys = {"rec:I:%d" % (i + 1): k for i, k in enumerate(keys)}
    w.answers = w.answers_for
    b = prog.bodies[p]
    store, args = {}, []
    root = ("O", "items", None)
    ity = next((i for i, t in enumerate(prog.types) if t.get("d") == "cdx::comp::Item"), None)
    for i, t in enumerate(tys):
        if "Item]" in t:
            store[root] = ("t", None, tuple(("m", "rec:I:%d" % (k + 1), ity, ()) for k in range(n)))
            args.append(("r", root, ()))
        else:
            args.append(mk("arg%d" % i, b.locals[i + 1]))
    w.run(p, {i + 1: a for i, a in enumerate(args)}, store, steps=60000, depth=24)
    rep.count("abstract runs")
    if not w.exits:
        raise Undecided("no exit")
    for v, st in w.exits:
        rep.count("exits judged")
        x = st.store.get(root)
        got = None
        if x is not None and x[0] == "t":
            got = [e[1] if e[0] == "m" else None for e in x[2]]
        if got is None or None in got:
            raise Undecided("items not followed")
        want = sorted("rec:I:%d" % (i + 1) for i in range(n))
        if sorted(got) != want:
            rep.bad("in_place_sort", p, where(b), "keys %s: the items become %s, which is not a rearrangement" % (
                list(keys), [g.split(":")[-1] for g in got]), st.trace(30))
            return
    rep.ok("in_place_sort", "%s %s" % (p.rsplit("::", 1)[-1], list(keys)))


class Bytes(World):
    """Raw input: file contents are byte strings, buffers hold at most `cap` bytes, a read gives at most `chunk` bytes.
    Lines compare by their first byte."""
    content = {}
    cap = 6
    chunk = 99

    def _relevant(self, path):
        if path.startswith("cdx::comp::Item::"):
            return True
        if path.startswith("cdx::sort::SortConfig::merge"):
            return False
        return super()._relevant(path)

    def raw_open(self, eng, st, call):
        f = self.fname(eng, st, call.args[0])
        if f not in self.content:
            raise Undecided("file " + f)
        st = st.copy()
        self.set_reader(st, ("I:" + f, f, len(self.content[f]), 0, 1))
        from ..world import ok
        return [(ok(("m", "I:" + f, self.ty("cdx::util::Infile"), ())), st)]

    def raw_read(self, eng, st, call, name):
        from ..world import ok
        m = re.search(r"I:(\w+)", self.mention(eng, st, call.args[0]))
        rid, f, n, pos, split = self.reader(st, "I:" + m.group(1))
        data = self.content[f][pos:]
        loc = eng.deref(call.args[-1])
        if loc is None or loc[0][0] == "K":
            raise Undecided("buffer")
        cur = eng.read(st, loc[0], loc[1])
        if cur[0] != "t":
            raise Undecided("buffer contents in " + call.where())
        if name == "read":
            k = min(len(data), len(cur[2]), self.chunk)
            new = tuple(("c", x) for x in data[:k]) + cur[2][k:]
        elif name == "read_until":
            i = data.find(b"\n")
            k = len(data) if i < 0 else i + 1
            new = cur[2] + tuple(("c", x) for x in data[:k])
        elif name == "read_to_end":
            k = len(data)
            new = cur[2] + tuple(("c", x) for x in data)
        else:
            raise Undecided(name)
        eng.write(st, loc[0], loc[1], ("t", None, new))
        self.set_reader(st, (rid, f, n, pos + k, split))
        return [(ok(("c", k)), st)]

    def text(self, eng, st, v):
        w = deepval(eng, st, v)
        if w[0] == "t" and all(x[0] == "c" for x in w[2]):
            return bytes(x[1] for x in w[2])
        if w[0] == "b":
            return bytes(w[1]) if not isinstance(w[1], str) else w[1].encode()
        return None

    def line(self, eng, st, data, item):
        d = self.text(eng, st, data)
        it = deepval(eng, st, item)
        if d is None or it[0] != "t" or any(x[0] != "c" for x in it[2][:2]):
            raise Undecided("item " + repr(it)[:60])
        o, s = it[2][0][1], it[2][1][1] & 0x7fffffff
        return d[o:o + s]

    def on_call(self, eng, st, call):
        from ..world import ok
        c = call.callee
        if c is not None:
            fn = c.res or c.fn
            if c.name in ("comp_items", "equal_items") and "LineCompList" in fn:
                a = self.line(eng, st, call.args[1], call.args[2])[:1]
                b = self.line(eng, st, call.args[1], call.args[3])[:1]
                if c.name == "equal_items":
                    return [(TRUE if a == b else FALSE, st)]
                return [(("e", ORD, 0 if a < b else 1 if a == b else 2, ()), st)]
            if c.name.startswith("fill_cache"):
                return [(UNIT, st)]
            if c.name == "capacity" and "Vec" in fn:
                return [(("c", self.cap), st)]
            if c.name == "is_cdx":
                return [(TRUE if (self.text(eng, st, call.args[0]) or b"")[:1] == b" " else FALSE, st)]
            if c.name == "check" and "HeaderChecker" in fn:
                t = self.text(eng, st, call.args[1])
                if t is None:
                    raise Undecided("header text")
                seen = any(e[0] == "head" for e in st.mon[1])
                self.log(st, ("head",))
                return [(ok(FALSE if seen and t[:1] == b" " else TRUE), st)]
            if fn == "std::path::PathBuf::push":
                loc = eng.deref(call.args[0])
                if loc is not None and loc[0][0] != "K":
                    t = re.sub(r"[^\w]+", "_", self.mention(eng, st, call.args[1])).strip("_")
                    eng.write(st, loc[0], loc[1], ("m", "path/" + t, None, ()))
                    return [(UNIT, st)]
            if fn == "std::path::Path::join":
                t = re.sub(r"[^\w]+", "_", self.mention(eng, st, call.args[1])).strip("_")
                return [(("m", "path/" + t, None, ()), st)]
            if fn in ("std::path::Path::to_str",):
                return [(("e", OPT, 1, (deepval(eng, st, call.args[0]),)), st)]
            if c.name in ("to_string", "to_owned", "deref", "as_path", "to_path_buf", "into_owned") and call.args:
                v = deepval(eng, st, call.args[0])
                if v[0] == "m" and v[1].startswith("path/"):
                    return [(v, st)]
            if fn.startswith("cdx::sort::SortConfig::merge"):
                names = []
                for i, a in enumerate(call.args):
                    t = call.argtys[i]
                    if t is not None and "String" in self.p.types[t]["s"]:
                        w = deepval(eng, st, a)
                        if w[0] != "t":
                            raise Undecided("list of temporary files")
                        names = ["W:" + re.sub(r"[.\s,()*]", "_", eng.nm(x) or "?") for x in w[2]]
                w = WR.search(" ".join(self.mention(eng, st, a) for i, a in enumerate(call.args)
                                       if call.argtys[i] is not None and "LineComp" not in self.p.types[call.argtys[i]]["s"]
                                       and "String" not in self.p.types[call.argtys[i]]["s"]))
                self.log(st, ("merge", tuple(names), w.group() if w else None))
                return [(ok(UNIT), st)]
            if c.name == "copy_from_slice" and fn.startswith("core::slice"):
                loc = eng.deref(call.args[0])
                src = deepval(eng, st, call.args[1])
                if loc is not None and src[0] == "t":
                    eng.write(st, loc[0], loc[1], src)
                    return [(UNIT, st)]
        return super().on_call(eng, st, call)

    @staticmethod
    def log(st, ev):
        m = st.mon
        st.mon = (m[0], m[1] + (ev,)) + m[2:]
        st.note("event %s" % (ev,))


def contents(tier):
    """File contents: (list of files, header?)"""
    one = [b"", b"b\n", b"b", b"b\na\n", b"b\na", b"b1\nb2\n", b"bx\na\n", b"c\nb\na\n", b"\na\n", b"b1\na\nb2\n", b"a\nb\nc\nd\n",
           b"dd\nccc\nb\na\n", b"a1\na2\nb\na3\n"]
    out = [(x,) for x in one]
    out += [(b"b\n", b"a\n"), (b"b", b"a\n"), (b"", b"a\n"), (b"b\n", b""), (b"b\na", b"c"), (b"b\na\n", b"d\nc\n"),
            (b"b", b"a", b"c")]
    out += [(b" h\n",), (b" h\nb\na\n",), (b" h\nb\n", b" h\na\n"), (b" h\nb", b" h\na"), (b" h\n", b" h\na\n"), (b" h\nb\n", b" h\n")]
    return out


def sorter(prog, rep, tier):
    """The sort routine (reading raw bytes into a bounded buffer, spilling sorted runs to temporary files) is interpreted
    with small file contents, buffer sizes and read sizes: the lines written to the output, or to the runs that are then
    merged into it, are exactly the lines of the inputs, less (when unique) lines equal to one that is kept."""
    p = "cdx::sort::SortConfig::sort"
    if p not in prog.bodies:
        rep.unk("sorter", p, "no such function")
        return
    caps = (5, 6, 8, 99) if tier != "thorough" else (4, 5, 6, 7, 8, 9, 12, 99)
    js = [(fs, cap, chunk, alt, un) for fs in contents(tier) for cap in caps for chunk in ((1, 3, 99) if cap > 9 else (2, 99))
          for alt in (0, 1) for un in (0, 1)]
    par(rep, js, lambda j, r: sort_one(prog, r, p, *j), chunk=16)


def sort_one(prog, rep, p, files, cap, chunk, alt, un):
    names = ["F%d" % i for i in range(len(files))]
    w = Bytes(prog, files=tuple(names), opaque=OPAQUE)
    w.content = dict(zip(names, files))
    w.cap, w.chunk = cap, chunk
    b = prog.bodies[p]
    args, store = {}, {}
    ctys = None
    for i in range(1, b.nargs + 1):
        t = prog.types[b.locals[i]]
        if "SortConfig" in t["s"]:
            fs = prog.adts["cdx::sort::SortConfig"]["variants"][0]["fields"]
            val = ("t", "cdx::sort::SortConfig", tuple(("c", alt) for f in fs))
            store[("O", "config", None)] = val
            args[i] = ("r", ("O", "config", None), ())
        elif "String]" in t["s"]:
            store[("O", "files", None)] = ("t", None, tuple(("s", n) for n in names))
            args[i] = ("r", ("O", "files", None), ())
        elif t["k"] == "bool":
            args[i] = ("c", un)
        elif t["k"] == "ref" and "LineComp" not in t["s"]:
            args[i] = ("r", ("O", "W:-", None), ())
    w.run(p, args, store, steps=60000, depth=24, cap=10 ** 9)
    rep.count("abstract runs")
    label = "%s buffer %d read %d%s%s" % (" + ".join(repr(f.decode()) for f in files), cap, chunk, " alt-sort" if alt else "", " unique" if un else "")
    want, head = [], None
    for f in files:
        ls = f.split(b"\n")
        if ls[-1] == b"":
            ls.pop()
        for k, l in enumerate(ls):
            if k == 0 and l[:1] == b" ":
                head = l
            else:
                want.append(l)
    for v, st in w.exits:
        if not isok(v):
            rep.count("runs ending in an error")
            continue
        rep.count("exits judged")
        out, tmp = b"", {}
        for e in st.mon[1]:
            if e[0] == "create":
                tmp[e[1]] = b""
            elif e[0] == "w":
                try:
                    bs = bytes(int(x) for x in e[2].split() if x.isdigit())
                except ValueError:
                    raise Undecided("written bytes " + e[2][:60])
                if e[1] == "W:-":
                    out += bs
                else:
                    tmp[e[1]] = tmp.get(e[1], b"") + bs
            elif e[0] == "merge":
                miss = [n for n in e[1] if n not in tmp]
                if miss:
                    raise Undecided("temporary file %s" % miss)
                if e[2] not in (None, "W:-"):
                    raise Undecided("merge into %s" % e[2])
                out += b"".join(tmp[n] for n in e[1])
        ls = out.split(b"\n")
        part = ls.pop()
        if head is not None and ls[:1] == [head]:
            ls = ls[1:]
        bad = None
        if part:
            bad = "the output ends in the middle of a line (%r)" % part.decode()
        left = list(want)
        for l in ls:
            if l in left:
                left.remove(l)
            else:
                bad = bad or "%r is written more often than it was read" % l.decode()
        for l in left:
            if not un or not any(k[:1] == l[:1] for k in ls):
                bad = bad or "%r is never written" % l.decode()
        if bad:
            rep.bad("sorter", p, where(b), "%s: %s" % (label, bad), st.trace(40))
            return
    if not w.exits:
        if w.div:
            rep.bad("sorter", p, w.div[0][0].where(), "%s: the run aborts" % label, w.div[0][1].trace(40))
            return
        raise Undecided("no exit")
    rep.ok("sorter", label)


def key_patterns(sizes):
    """One representative of every order type of sorted key sequences for files of the given sizes."""
    tot = sum(max(n, 0) for n in sizes)
    seen = set()
    for seqs in itertools.product(*[list(itertools.combinations_with_replacement(range(tot), max(n, 0))) for n in sizes]):
        ks = sorted(set(x for s in seqs for x in s))
        t = tuple(tuple(ks.index(x) for x in s) for s in seqs)
        if t not in seen:
            seen.add(t)
            yield t


def merge_entries(prog):
    """Library routines that merge named files into an output."""
    for p, b in sorted(prog.bodies.items()):
        if not p.startswith("cdx::sort::SortConfig::") or "{closure" in p:
            continue
        tys = [prog.types[b.locals[i + 1]]["s"] for i in range(b.nargs)]
        if any("String]" in t for t in tys) and any("&mut" in t and "LineCompList" in t for t in tys) and "bool" in tys:
            yield p


def merges(prog, rep, tier):
    """Every merging routine (and the sort tool with --merge) is interpreted on up to three inputs for every order
    pattern of their (sorted) keys, with every heap order: each record is written exactly once, less (when unique)
    records whose key equals that of a written one."""
    ents = list(merge_entries(prog))
    if not ents:
        rep.unk("merges", "cdx::sort", "no merging routine")
    szs = [(), (-1,), (0,), (1,), (2,), (3,), (-1, 1), (1, -1), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (0, 0), (-1, -1), (1, 1, 1), (0, 1, 1),
           (1, 0, 1), (1, 1, 0), (-1, 1, 1), (2, 1, 1), (1, 1, 1, 1)]
    if tier == "thorough":
        szs += [(3, 2), (2, 3), (1, 2, 1), (1, 1, 2), (2, 1, 1, 1), (1, 1, 1, 1, 1)]
    js = []
    for ent in ents + ["sort --merge"]:
        for sz in szs:
            if not sz and ent.startswith("sort "):
                continue
            ps = list(key_patterns(sz))
            if len(sz) > 3 and tier != "thorough":
                ps = ps[::7]
            for ks in ps:
                for un in (0, 1):
                    for alt in (0, 1):
                        js.append((ent, sz, ks, un, alt))
    par(rep, js, lambda j, r: merge_one(prog, r, *j), chunk=16)


class Merging(Sized):
    hdr = None

    dup = None

    def log(self, st, ev):
        m = st.mon
        if ev[0] == "w" and self.dup is None and ev in m[1] and REC.search(ev[2]):
            self.dup = (st.copy(), REC.search(ev[2]).group())
        st.mon = (m[0], m[1] + (ev,)) + m[2:]
        st.note("event %s" % (ev,))

    def reader_call(self, eng, st, call, name):
        if name == "has_header":
            r = self.reader(st, self.rd_id(eng, st, call.args[0]) or "")
            if r is not None:
                return [(TRUE if r[2] >= 0 else FALSE, st)]
        return super().reader_call(eng, st, call, name)

    def on_call(self, eng, st, call):
        from ..world import ok
        c = call.callee
        if c is not None:
            if c.name == "need_split":
                return [(TRUE, st)]
            if c.name == "check" and "HeaderChecker" in (c.res or c.fn):
                seen = any(e[0] == "head" for e in st.mon[1])
                self.log(st, ("head",))
                return [(ok(FALSE if seen else TRUE), st)]
        return super().on_call(eng, st, call)

    def raw_open(self, eng, st, call):
        self.shapes = (self.n.get(self.fname(eng, st, call.args[0]), 1),)
        return super().raw_open(eng, st, call)


def merge_world(prog, ent, sz, keys, un, alt):
    """(world, entry, label, function that runs it) of one merge."""
    names = ["F%d" % i for i in range(len(sz))]
    opts = ()
    if ent.startswith("sort "):
        opts = (("merge", None),) + ((("unique", None),) if un else ()) + ((("alt-merge", None),) if alt else ())
    w = Merging(prog, files=tuple(names), options=opts, opaque=OPAQUE)
    w.n = dict(zip(names, sz))
    w.keys = {"rec:%s:%d" % (f, i + 1): k for f, ks in zip(names, keys) for i, k in enumerate(ks)}
    w.answers = w.answers_for
    label = "%s %s%s%s" % (ent.rsplit("::", 1)[-1], [list(k) if s >= 0 else "no bytes" for k, s in zip(keys, sz)],
                           " unique" if un else "", " alt" if alt else "")
    if ent.startswith("sort "):
        p = tools(prog).get("sort")
        if p is None:
            raise Undecided("no sort tool")
        start = lambda: w.run(p, steps=40000)
    else:
        p = ent
        b = prog.bodies[p]
        args, store = {}, {}
        for i in range(1, b.nargs + 1):
            t = prog.types[b.locals[i]]
            if "SortConfig" in t["s"]:
                fs = prog.adts["cdx::sort::SortConfig"]["variants"][0]["fields"]
                store[("O", "config", None)] = ("t", "cdx::sort::SortConfig", tuple(("c", alt) for f in fs))
                args[i] = ("r", ("O", "config", None), ())
            elif "String]" in t["s"]:
                store[("O", "files", None)] = ("t", None, tuple(("s", n) for n in names))
                args[i] = ("r", ("O", "files", None), ())
            elif t["k"] == "bool":
                args[i] = ("c", un)
            elif "LineComp" not in t["s"] and "TempDir" not in t["s"]:
                args[i] = ("m", "W:-", b.locals[i], ())
        start = lambda: w.run(p, args, store, steps=40000)
    return w, p, label, start


def merge_one(prog, rep, ent, sz, keys, un, alt):
    w, p, label, start = merge_world(prog, ent, sz, keys, un, alt)
    try:
        start()
    except Undecided:
        if w.dup is None:
            raise
        rep.bad("merges", ent, where(prog.bodies[p]), "%s: record %s is written more than once" % (label, w.dup[1][4:]), w.dup[0].trace(40))
        return
    rep.count("abstract runs")
    good = 0
    for v, st in w.exits:
        if not isok(v):
            rep.count("runs ending in an error")
            continue
        good += 1
        rep.count("exits judged")
        got = []
        for e in st.mon[1]:
            if e[0] == "w":
                if e[2].startswith("all:"):
                    f = e[2][4:]
                    got += ["rec:%s:%d" % (f, i + 1) for i in range(w.n[f])]
                else:
                    got += ["rec:%s:%s" % x for x in dict.fromkeys(REC.findall(e[2]))]
        bad = None
        for r in sorted(set(got)):
            if got.count(r) > 1:
                bad = bad or "record %s is written %d times" % (r[4:], got.count(r))
        kept = {w.keys[r] for r in got if r in w.keys}
        for r in sorted(w.keys):
            if r not in got and not (un and w.keys[r] in kept):
                bad = bad or "record %s is never written" % r[4:]
        if bad:
            rep.bad("merges", ent, where(prog.bodies[p]), "%s: %s" % (label, bad), st.trace(40))
            return
    if not good:
        raise Undecided("no successful run")
    rep.ok("merges", label)


RULES = [in_place_sort, sorter, merges]
