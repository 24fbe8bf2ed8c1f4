"""C05: every record of every named input is processed."""
import re
from ..world import REC, isok, tools, World
from ..absint import Undecided, mk, TRUE, FALSE
from ..models import RES, OPT
from .. import toolruns
from .c04 import OPAQUE
from .common import outcomes, par, boolof, where

# tool -> options that are an explicit limit on what is read (None: the tool reads by searching, or belongs to C12)
LIMITED = {"binsearch": None, "join": None, "tabs": None, "tooltest": None, "filegen": None, "calc": None,
           "sample": ("for", "range"), "transpose": ("lines",), "paste": ("end=Early",)}


def limited(tool, opts):
    if any(re.match(r"show-|std-|.*-help$|file-format$", n) for n, v in opts):
        return True         # prints information instead of running
    if tool not in LIMITED:
        return False
    ls = LIMITED[tool]
    if ls is None:
        return True
    return any(n in ls or "%s=%s" % (n, v) in ls for n, v in opts)


def touched(events):
    """{file: [record numbers in order of first use]}, files given whole to something, files opened {file: n}."""
    first, whole, opened = {}, set(), {}
    for e in events:
        if e[0] == "open":
            opened[e[1]] = e[2]
        txt = None
        if e[0] == "act":
            txt = e[3]
            for w in txt.split():
                if not w.startswith("rec:") and "(" not in w:
                    whole.add(w)
        elif e[0] == "w":
            txt = e[2]
            m = re.match(r"all:(\w+)", txt)
            if m:
                whole.add(m.group(1))
        elif e[0] == "print":
            txt = e[2]
        if txt:
            for f, i in REC.findall(txt):
                l = first.setdefault(f, [])
                if int(i) not in l:
                    l.append(int(i))
    return first, whole, opened


def every_record(prog, rep, tier):
    """Abstract runs of each tool's main over inputs of every shape (no bytes, header only, one record, two records;
    one or two files), with each advertised option: on every path ending in success each named file was opened (or
    handed whole to the routine that reads it) and each of its records was used in a comparison, match, aggregation or
    write, in file order."""
    par(rep, toolruns.jobs(prog, rep, "every_record"), lambda j, r: one(prog, r, *j))


def one(prog, rep, tool, path, label, files, opts):
    what = "%s %s" % (tool, label)
    if limited(tool, opts):
        return
    judge(prog, rep, tool, path, label, what, toolruns.run(prog, path, files, opts))
    if len(files) > 1:
        # three files whose numbers of columns differ
        w = Wide(prog, files=("F0", "F1", "F2"), shapes=(1,), options=opts, opaque=OPAQUE)
        w.bound = (w.files, w.shapes)
        try:
            w.run(path, steps=20000)
        except Undecided as e:
            if "step limit" not in str(e):
                raise
            return
        judge(prog, rep, tool, path, label, what + " (three files)", w)


class Wide(World):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.colsof = {"F0": 1, "F1": 2, "F2": 1}


def judge(prog, rep, tool, path, label, what, w):
    fs, shapes = w.bound
    rep.count("abstract runs")
    bad = False
    for v, st in w.exits:
        rep.count("paths to an exit")
        if not isok(v):
            continue
        first, whole, opened = touched(st.mon[1])
        for f in fs:
            if f in whole:
                if f not in opened:
                    continue
            if f not in opened:
                bad = True
                rep.bad("every_record", "%s:%s:file" % (tool, label), where(prog.bodies[path]),
                        "%s succeeds without having opened every named file (%s is missing)" % (what, f), st.trace(25))
                continue
            n = opened[f]
            if n < 1 or (tool == "sort" and n < 2):
                continue
            got = first.get(f, [])
            raw = "I:" + f
            if any(e[0] == "w" and raw in e[2] for e in st.mon[1]) and not got:
                continue
            miss = [i for i in range(1, n + 1) if i not in got]
            if miss:
                bad = True
                rep.bad("every_record", "%s:%s:record" % (tool, label), where(prog.bodies[path]),
                        "%s succeeds without using record %d of the %d in %s" % (what, miss[0], n, f), st.trace(30))
            elif got != sorted(got):
                bad = True
                rep.bad("every_record", "%s:%s:order" % (tool, label), where(prog.bodies[path]),
                        "%s uses the records of %s out of order" % (what, f), st.trace(30))
    if not bad:
        rep.ok("every_record", "%s: %d files x shapes %s, %d exits" % (what, len(fs), shapes, len(w.exits)))


RULES = [every_record]


def res_ok(v):
    return ("e", RES, 0, (v,))


def reader_delivers(prog, rep, tier):
    """The record reader itself: TextFileMode::read_line reports end of input exactly when the first read of that call
    returned no bytes, and starts from an empty buffer; Reader::getline and the opening of a file read exactly one
    record each and report 'done' exactly when that read reported end of input, whatever splitting is selected."""
    b = prog.bodies.get("cdx::util::TextFileMode::read_line")
    if b is None:
        rep.unk("reader_delivers", "read_line", "not found")
    else:
        bad, n = None, 0
        for size in (0, 1, 2, 100):
            def hook(eng, st, call):
                nm = call.callee.name if call.callee else ""
                if nm in ("read_until", "read_line", "read", "read_to_end"):
                    k = len(st.mon)
                    st.mon = st.mon + (nm,)
                    return [(res_ok(("c", size) if k == 0 else ("m", "size%d" % min(k, 2), eng.usize(), ())), st)]
                return None
            m = outcomes(prog, b.path, hook=hook, steps=20000)
            for v, st in m.outs:
                n += 1
                if not isok(v):
                    continue
                r = boolof(m.eng, st, v[3][0])
                if not st.mon:
                    bad = (st, "returns without reading")
                elif r is not None and r != (size == 0):
                    bad = (st, "reports %s when %d bytes were read" % ("end of input" if r else "a record", size))
        if bad:
            rep.bad("reader_delivers", "read_line", where(b), "read_line " + bad[1], bad[0].trace(12))
        else:
            rep.ok("reader_delivers", "read_line: %d outcomes" % n)

    def hook2(eng, st, call, eof):
        f = call.callee.fn if call.callee else ""
        if f.endswith("TextFileMode::read_line"):
            st.mon = st.mon + ("read",)
            return [(res_ok(TRUE if eof else FALSE), st)]
        if f.endswith("TextFileMode::read_header"):
            return [(res_ok(("m", "nothing", eng.booltype(), ())), st)]
        return None

    def rel(p):
        return p.startswith(("cdx::util::Reader::", "cdx::util::InfileContext::"))
    for path, flagpath in (("cdx::util::Reader::getline", ("cont", "is_done")),
                           ("cdx::util::InfileContext::read_header", ("is_done",))):
        b = prog.bodies.get(path)
        if b is None:
            rep.unk("reader_delivers", path, "not found")
            continue
        bad, n = None, 0
        for eof in (False, True):
            fv, store = nested(prog, b, flagpath, FALSE)
            m = outcomes(prog, path, args=fv, store=store, hook=lambda e, t, c: hook2(e, t, c, eof), relevant=rel, steps=20000)
            for v, st in m.outs:
                n += 1
                if not isok(v):
                    continue
                if path.endswith("read_header"):
                    nothing = boolof(m.eng, st, ("m", "nothing", m.eng.booltype(), ()))
                    if nothing:
                        if st.mon:
                            bad = (st, "reads a record of an empty file")
                        continue
                if len(st.mon) != 1:
                    bad = (st, "reads %d records at once" % len(st.mon))
                    continue
                fb = boolof(m.eng, st, field_after(prog, m.eng, st, b, flagpath))
                if fb != eof:
                    bad = (st, "marks the file %s although the read reported %s" % (
                        "done" if fb else "not done" if fb is False else "done or not by something else",
                        "end of input" if eof else "a record"))
                if path.endswith("getline"):
                    rb = boolof(m.eng, st, v[3][0])
                    if rb != eof:
                        bad = (st, "returns %s although the read reported %s" % (
                            "something else" if rb is None else str(rb).lower(), "end of input" if eof else "a record"))
        if bad:
            rep.bad("reader_delivers", path, where(b), "%s %s" % (path, bad[1]), bad[0].trace(14))
        else:
            rep.ok("reader_delivers", "%s: %d outcomes" % (path, n))


def nested(prog, body, fields, val):
    """Arguments in which self.<fields...> has a given value."""
    ty = body.locals[1]
    pt = prog.types[ty]["a"][0]

    def build(name, t, fs):
        if not fs:
            return val
        adt = prog.adt_of(t)
        f = prog.adts[adt]["variants"][0]["fields"]
        i = [k for k, x in enumerate(f) if x["name"] == fs[0]]
        if not i:
            raise Undecided("no field " + fs[0])
        return ("m", name, t, ((("f", i[0]), build(name + "." + fs[0], f[i[0]].get("ty"), fs[1:])),))
    n = body.varname(1) or "a1"
    root = ("O", n + "*", pt)
    return {1: mk(n, ty)}, {root: build(n + "*", pt, fields)}


def field_after(prog, eng, st, body, fields):
    """Value of self.<fields...> at exit."""
    v = ("L", 0, 1)
    ty = body.locals[1]
    t = prog.types[ty]
    pt = t["a"][0]
    loc = eng.deref(mk(body.varname(1) or "a1", ty))
    proj = loc[1]
    for f in fields:
        adt = prog.adt_of(pt)
        fs = prog.adts[adt]["variants"][0]["fields"]
        i = [k for k, x in enumerate(fs) if x["name"] == f]
        if not i:
            return None
        pt = fs[i[0]]["ty"] if "ty" in fs[i[0]] else None
        proj = proj + ((("f", i[0]), pt, "." + f),)
        if pt is None:
            break
    return eng.norm(st, eng.read(st, loc[0], proj))


SORT = "cdx::sort::SortConfig::sort"
SR = "cdx::sort::Sorter::"


def sort_reads_all(prog, rep, tier):
    """Sorting: SortConfig::sort hands every named file to the sorter, in order, and then writes the result;
    Sorter::add_file keeps the first line (as header or as data) whenever the header policy says so and always hands
    the rest of the file on; Sorter::add returns success only after a read that returned no bytes."""
    need = [SORT, SR + "add_file", SR + "finalize", SR + "add", SR + "add_data"]
    if any(n not in prog.bodies for n in need):
        rep.unk("sort_reads_all", "anchors", "missing " + ", ".join(n for n in need if n not in prog.bodies))
        return
    fl, wo = ("O", "files", None), ("O", "W:out", None)
    b = prog.bodies[SORT]
    w = World(prog, files=("F0", "F1"), opaque=[SR + "add_file", SR + "finalize"])
    w.run(SORT, args={2: ("r", fl, ()), 4: ("r", wo, ())}, store={fl: ("t", None, (("s", "F0"), ("s", "F1")))}, steps=20000)
    bad = False
    for v, st in w.exits:
        if not isok(v):
            continue
        seq = [e[3] for e in st.mon[1] if e[0] == "act"]
        fin = [i for i, e in enumerate(st.mon[1]) if e[0] == "w" and e[2].startswith("finalize")]
        last = max([i for i, e in enumerate(st.mon[1]) if e[0] == "act"] + [-1])
        if seq != ["F0", "F1"] or len(fin) != 1 or fin[0] < last:
            bad = True
            rep.bad("sort_reads_all", "sort", where(b), "sort succeeds after adding %s of F0 F1 and %d final writes" % (
                seq, len(fin)), st.trace(15))
    if not bad:
        rep.ok("sort_reads_all", "SortConfig::sort: %d exits" % len(w.exits))


def sort_bytes(prog, rep, tier):
    """The sort routine interpreted on small file contents, buffer sizes and read sizes (also reads that return less than
    asked for): every line of every file reaches the output or the runs merged into it."""
    from . import c11
    p = "cdx::sort::SortConfig::sort"
    if p not in prog.bodies:
        rep.unk("sort_bytes", p, "no such function")
        return
    js = [(fs, cap, chunk, 0, 0) for fs in c11.contents(tier) for cap in (5, 8, 99) for chunk in (1, 2, 3, 99)]
    par(rep, js, lambda j, r: c11.sort_one(prog, r, p, *j), chunk=8)


RULES = [every_record, reader_delivers, sort_reads_all, sort_bytes]
