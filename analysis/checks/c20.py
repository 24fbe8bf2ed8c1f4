"""C20: uniq writes exactly one record per run of equal records."""
import itertools, re
from ..world import World, isok, tools, REC
from ..absint import Undecided
from ..models import ORD
from .c04 import OPAQUE
from .common import par, where

GROUP = "cdx::comp::LineCompList"


class Groups(World):
    """Records have a group key (answered by the key comparison list) and a rank (answered by any other comparison)."""
    keys = {}
    ranks = {}

    def answer(self, w, eng, st, nm, recv, recs, kind):
        two = []
        for r in recs:
            if not two or two[-1] != r:
                two.append(r)
        if len(two) == 1 and len(recs) > 1:
            two = [two[0], two[0]]
        if len(two) != 2:
            return None
        t = self.keys if self.recv_adt.get(recv) == GROUP else self.ranks
        if any(r not in t for r in two):
            return None
        a, b = t[two[0]], t[two[1]]
        if kind == "bool":
            return [(("c", int(a == b)), st)]
        return [(("e", ORD, 0 if a < b else 1 if a == b else 2, ()), st)]


def key_patterns(n):
    return [(0,) + t for t in itertools.product((0, 1), repeat=n - 1)] if n else [()]


def jobs(tier):
    top = 5 if tier == "thorough" else 4
    out = []
    for which in ("first", "last", "min", "max"):
        for count in (None, "x,begin", "x,end"):
            for agg in (None, "agg", "agg-pre", "agg-post"):
                if agg and agg != "agg" and (which not in ("first", "max") or count):
                    continue
                for n in range(0, top + 1):
                    for ks in key_patterns(n):
                        if which in ("min", "max"):
                            vals = (0, 1, 2) if n <= 3 and not agg and count != "x,end" else (0, 1)
                            if n > 3 and (agg or count):
                                continue
                            for rs in itertools.product(vals, repeat=n):
                                out.append((which, count, agg, ks, rs))
                        else:
                            out.append((which, count, agg, ks, (0,) * n))
    return out


def one_per_run(prog, rep, tier):
    """uniq is interpreted abstractly on every pattern of up to four records (each record equal to or different from its
    predecessor), every --which with every rank pattern, with and without --count at either end and with aggregation:
    one record is written per run, it is the first, the last, a minimal or a maximal record of that run as requested,
    its count is the length of the run, and the aggregators have been given exactly that run's records since their last
    reset."""
    path = tools(prog).get("uniq")
    if path is None:
        rep.unk("one_per_run", "uniq", "no such tool")
        return
    par(rep, jobs(tier), lambda j, r: one(prog, r, path, *j), chunk=16)


def runs_of(ks):
    out = []
    for i, k in enumerate(ks):
        if out and ks[i - 1] == k:
            out[-1].append(i + 1)
        else:
            out.append([i + 1])
    return out


def one(prog, rep, path, which, count, agg, ks, rs):
    opts = []
    if which != "first":
        opts.append(("which", which + ",x"))
    if count:
        opts.append(("count", count))
    if agg:
        opts.append((agg, None))
    n = len(ks)
    w = Groups(prog, files=("F0",), shapes=(n,), options=tuple(opts), opaque=OPAQUE)
    w.keys = {"rec:F0:%d" % (i + 1): k for i, k in enumerate(ks)}
    w.ranks = {"rec:F0:%d" % (i + 1): k for i, k in enumerate(rs)}
    w.answers = w.answer
    label = "uniq %s on keys %s%s" % (" ".join("--%s%s" % (a, "=" + b if b else "") for a, b in opts), list(ks),
                                     " ranks %s" % list(rs) if which in ("min", "max") else "")
    w.run(path, steps=40000)
    rep.count("abstract runs")
    want = runs_of(ks)
    bad = None
    seen = False
    for v, st in w.exits:
        rep.count("exits judged")
        if not isok(v):
            continue
        seen = True
        b = judge(w, st, which, count, agg, want, rs)
        if b:
            bad = bad or (st, b)
    if not seen:
        raise Undecided("no successful run")
    mode = "%s:%s:%s" % (which, count or "plain", agg or "noagg")
    if bad:
        rep.bad("one_per_run", mode, where(prog.bodies[path]), "%s: %s" % (label, bad[1]), bad[0].trace(30))
    else:
        rep.ok("one_per_run", label)


def judge(w, st, which, count, agg, want, rs):
    """None or what is wrong with one exit."""
    out = []          # (record, count or None, records aggregated)
    num = None
    fed = []
    hold = None
    aggs = None
    for e in st.mon[1]:
        if e[0] == "act" and e[1].startswith("add") and "Agg" in (w.recv_adt.get(e[2]) or ""):
            fed.append(int(REC.findall(e[3])[0][1]))
        elif e[0] == "reset" and "Agg" in (w.recv_adt.get(e[1]) or ""):
            fed = []
        elif e[0] == "w":
            recs = list(dict.fromkeys(int(i) for f, i in REC.findall(e[2])))
            if recs:
                for r in recs:
                    out.append([r, num, list(fed)])
                num = None
            elif count and not agg and "delim" in e[2] or re.fullmatch(r"\d+", e[2]):
                k = [int(x) for x in re.findall(r"(?<![\w.:<])\d+(?![\w:.>])", re.sub(r"'[^']*'", "", e[2]))]
                if len(k) == 1:
                    if count == "x,end" and out:
                        out[-1][1] = k[0]
                    elif count == "x,begin":
                        num = k[0]
    got = [o[0] for o in out]
    if len(out) != len(want):
        return "records %s are written for the runs %s" % (got, want)
    for o, run in zip(out, want):
        ok = {"first": run[:1], "last": run[-1:],
              "min": [i for i in run if rs[i - 1] == min(rs[j - 1] for j in run)],
              "max": [i for i in run if rs[i - 1] == max(rs[j - 1] for j in run)]}[which]
        if o[0] not in ok:
            return "record %d is written for the run %s" % (o[0], run)
        if count and not agg:
            if o[1] is None:
                return None if not any(x[1] is not None for x in out) else "no count is written for the run %s" % run
            if o[1] != len(run):
                return "the count of the run %s is written as %d" % (run, o[1])
        if agg and o[2] != run:
            return "the aggregators have been given %s for the run %s" % (o[2], run)
    return None


def saved_record(prog, rep, tier):
    """The record kept for a run is a whole record: TextLine::assign takes every part of the new line (its text, columns
    and original text), so nothing of the record kept before survives."""
    path = "cdx::util::TextLine::assign"
    b = prog.bodies.get(path)
    adt = prog.adts.get("cdx::util::TextLine")
    if b is None or adt is None:
        rep.unk("saved_record", path, "not found")
        return
    n = len(adt["variants"][0]["fields"])
    used = {1: set(), 2: set()}
    alias = {1: 1, 2: 2}

    def place(p):
        root = alias.get(p[0])
        if root is None:
            return
        fs = [e for e in p[1] if e != "*" and e[0] == "f"]
        if fs:
            used[root].add(fs[0][1])
        elif p[1]:
            used[root].add("all")

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") in ("copy", "move", "ref", "discr") and "p" in x:
                place(x["p"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for bb in b.bbs:
        if bb["c"]:
            continue
        for s in bb["s"]:
            if s[0] == "=":
                if s[2]["k"] in ("use",) and s[2]["o"]["k"] in ("copy", "move") and not s[2]["o"]["p"][1] and s[2]["o"]["p"][0] in alias and not s[1][1]:
                    alias[s[1][0]] = alias[s[2]["o"]["p"][0]]
                    continue
                place(s[1])
                walk(s[2])
        t = bb["t"]
        if t["k"] == "call":
            for a in t["args"]:
                if a["k"] in ("copy", "move") and not a["p"][1] and a["p"][0] in alias:
                    used[alias[a["p"][0]]].add("all")
                else:
                    walk(a)
    miss = [f["name"] for i, f in enumerate(adt["variants"][0]["fields"]) for k in (1, 2) if i not in used[k] and "all" not in used[k]]
    if miss:
        rep.bad("saved_record", path, where(b), "TextLine::assign does not copy %s" % ", ".join(dict.fromkeys(miss)))
    else:
        rep.ok("saved_record", "TextLine::assign: %d fields" % n)


RULES = [one_per_run, saved_record]
