"""C10: a detected check failure always gives a failing exit status.

Abstract runs of verify and of sort's check mode.  Every answer a requested check can give about a record (column
count, pattern verdict, first/last-line verdict, comparison with the preceding record) is explored; an exit is judged
against the answers given on its path.
"""
import re
from ..world import World, isok, iserr, tools, REC
from ..absint import Undecided
from .common import par, where
from .c04 import OPAQUE, spec_of

LESS, EQUAL, GREATER = 0, 1, 2


class Checks(World):
    """Column counts are answers too: a record has 1, 2 or 3 columns, the header has 2."""
    def line_call(self, eng, st, call, name):
        if name == "len":
            from ..absint import deepval
            v = deepval(eng, st, call.args[0])
            if v[0] == "m" and REC.search(v[1]):
                k = "ncol:" + REC.search(v[1]).group()
                if k in st.asm:
                    return [(st.asm[k], st)]
                out = []
                for n in (2, 1, 3):
                    s = st.copy()
                    s.asm[k] = ("c", n)
                    s.note("%s has %d columns" % (k[5:], n))
                    out.append((("c", n), s))
                return out
        return super().line_call(eng, st, call, name)


def answers(st):
    """[(kind, records, value)] of what the checks said."""
    out = []
    for k, a in st.asm.items():
        if k.startswith("ncol:"):
            out.append(("columns", [k[5:]], a[1]))
            continue
        m = re.match(r"q:(\w+)\(([^|]*)\|(.*)$", k)
        if not m:
            continue
        fn, recv, rest = m.groups()
        recs = []
        for x in REC.findall(rest):
            r = "rec:%s:%s" % x
            if not recs or recs[-1] != r:
                recs.append(r)
        if a[0] == "ev":
            out.append(("order", recs, a[1]))
        elif fn.startswith("equal"):
            out.append(("equal", recs, a[1]))
        elif fn.startswith(("ok", "line_ok")) or "ok" in fn or "match" in fn:
            out.append(("verdict:" + recv, recs, a[1]))
    return out


def pos(r):
    f, i = REC.match(r).groups()
    return f, int(i)


def failing(ans, unique, ordered):
    for kind, recs, v in ans:
        if kind == "columns" and v != 2:
            return "%s has the wrong number of columns" % recs[0]
        if kind.startswith("verdict") and v == 0:
            return "%s fails a requested check" % (recs[0] if recs else "a record")
        if kind in ("order", "equal") and len(recs) == 2 and ordered:
            (f, i), (g, j) = pos(recs[0]), pos(recs[1])
            if f != g or abs(i - j) != 1:
                continue
            if kind == "order":
                o = v if i < j else 2 - v
                if o == GREATER:
                    return "%s sorts before %s" % (recs[1] if i < j else recs[0], recs[0] if i < j else recs[1])
                if o == EQUAL and unique:
                    return "%s equals its predecessor" % (recs[1] if i < j else recs[0])
            elif unique and v == 1:
                return "%s equals its predecessor" % (recs[1] if i < j else recs[0])
    return None


def missing(ans, opened, want):
    """A requested check that was not asked although the run succeeded."""
    for f, n in opened.items():
        recs = ["rec:%s:%d" % (f, i) for i in range(1, n + 1)]
        if "columns" in want:
            for r in recs:
                if not any(k == "columns" and r in rs for k, rs, v in ans):
                    return "the columns of %s were not counted" % r
        if "pattern" in want:
            for r in recs:
                if not any(k.startswith("verdict") and r in rs for k, rs, v in ans):
                    return "no pattern verdict on %s" % r
        if "first" in want and recs and not any(k.startswith("verdict") and recs[0] in rs for k, rs, v in ans):
            return "the first record was not checked"
        if "last" in want and recs and not any(k.startswith("verdict") and recs[-1] in rs for k, rs, v in ans):
            return "the last record was not checked"
        if "sort" in want:
            for a, b in zip(recs, recs[1:]):
                if not any(k in ("order", "equal") and a in rs and b in rs for k, rs, v in ans):
                    return "%s was not compared with %s" % (b, a)
    return None


def runs(prog):
    """(tool, options, what is checked, unique)"""
    V = [
        ((), ()), (("pattern",), ("pattern",)), (("first",), ("first",)), (("last",), ("last",)),
        (("sort",), ("sort",)), (("unique",), ("sort",)), (("key", "sort"), ("sort",)), (("key", "unique"), ("sort",)),
        (("unique", "sort"), ("sort",)), (("sort", "unique"), ("sort",)), (("report",), ()),
        (("report", "pattern"), ("pattern",)), (("report", "sort"), ("sort",)), (("report", "unique"), ("sort",)),
        (("first", "sort"), ("first", "sort")), (("last", "sort"), ("last", "sort")),
        (("first", "last"), ("first", "last")), (("pattern", "unique"), ("pattern", "sort")),
        (("pattern", "last"), ("pattern", "last")), (("report", "last"), ("last",)), (("report", "first"), ("first",)),
        (("pattern", "first", "last", "unique"), ("pattern", "first", "last", "sort")),
    ]
    out = []
    for o, w in V:
        out.append(("verify", o, ("columns",) + w, "unique" in o, "sort" in o or "unique" in o))
    for o in (("check",), ("check", "unique"), ("check", "key"), ("Check",), ("Check", "unique"), ("Check", "key")):
        out.append(("sort", o, ("sort",), "unique" in o, True))
    return out


def check_status(prog, rep, tier):
    """verify and sort --check/--Check with every combination of requested checks (alone, with --report and combined),
    over one file of 0-3 records and over two files: success only if no answer on the path was a failure and every
    requested check was made on every record it concerns; failure only if some answer was one."""
    par(rep, [(r, files, shapes) for r in runs(prog) for files, shapes in ((("F0",), (-1, 0, 1, 2)), (("F0",), (3,)),
                                                                           (("F0", "F1"), (-1, 1)), (("F0", "F1"), (0, 2)))],
        lambda j, r: one(prog, r, *j))


def one(prog, rep, run, files, shapes):
    tool, opts, want, unique, ordered = run
    path = tools(prog).get(tool)
    if path is None:
        raise Undecided("no tool " + tool)
    tab, _, _ = spec_of(prog, tool, path)
    have = {t[0] for t in tab}
    label = "%s %s" % (tool, " ".join("--" + o for o in opts))
    if any(o not in have for o in opts):
        rep.unk("check_status", label, "option not declared")
        return
    w = Checks(prog, files=files, shapes=shapes, options=[(o, None) for o in opts], opaque=OPAQUE)
    try:
        w.run(path, steps=60000)
    except Undecided as e:
        # too many combinations: leave the column counts out
        w = World(prog, files=files, shapes=shapes, options=[(o, None) for o in opts], opaque=OPAQUE,
                  answers=None)
        want = tuple(x for x in want if x != "columns")
        raise
    rep.count("abstract runs")
    rep.count("exits judged", len(w.exits))
    bad = False
    key = "%s:%s" % (tool, "+".join(opts))
    for v, st in w.exits:
        ans = answers(st)
        f = failing(ans, unique, ordered)
        if isok(v):
            if f:
                bad = True
                rep.bad("check_status", key + ":success", where(prog.bodies[path]),
                        "%s succeeds although %s" % (label, f), st.trace(30))
                continue
            opened = {e[1]: e[2] for e in st.mon[1] if e[0] == "open" and e[2] > 0}
            m = missing(ans, opened, want)
            if m:
                bad = True
                rep.bad("check_status", key + ":unchecked", where(prog.bodies[path]),
                        "%s succeeds although %s" % (label, m), st.trace(30))
        elif iserr(v) and not f:
            nm = w.eng.nm(v) or ""
            if "err:cdx:" in nm:
                bad = True
                rep.bad("check_status", key + ":failure", where(prog.bodies[path]),
                        "%s fails although no requested check failed" % label, st.trace(30))
    if not bad:
        rep.ok("check_status", "%s over %d files %s: %d exits" % (label, len(files), shapes, len(w.exits)))


RULES = [check_status]
