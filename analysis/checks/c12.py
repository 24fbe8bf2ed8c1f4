"""C12: joining classifies every record exactly once."""
import itertools, re
from ..world import World, isok, iserr, tools, REC, NONE
from ..absint import Undecided
from ..models import ORD
from .c04 import OPAQUE
from .common import par, where


class Keyed(World):
    """Records have abstract keys; comparisons of records answer by key."""
    keys = {}

    def answers_for(self, w, eng, st, nm, recv, recs, kind):
        two = []
        for r in recs:
            if not two or two[-1] != r:
                two.append(r)
        if len(two) != 2 or any(r not in self.keys for r in two):
            return None
        a, b = self.keys[two[0]], self.keys[two[1]]
        if kind == "bool":
            return [(("c", int(a == b)), st)]
        return [(("e", ORD, 0 if a < b else 1 if a == b else 2, ()), st)]


def patterns(n0, n1):
    """Key sequences: non-decreasing for the first file, strictly increasing for the second; one of each order type."""
    seen = set()
    top = n0 + n1
    for left in itertools.combinations_with_replacement(range(top), n0):
        for right in itertools.combinations(range(top), n1):
            ks = sorted(set(left + right))
            t = (tuple(ks.index(x) for x in left), tuple(ks.index(x) for x in right))
            if t not in seen:
                seen.add(t)
                yield t


def sizes(tier):
    m = 4 if tier == "thorough" else 3
    return [(a, b) for a in [-1] + list(range(m + 1)) for b in [-1] + list(range(m + 1)) if a + b <= (7 if tier == "thorough" else 5)]


ALSO = [(), (("1", "U0"),), (("2", "U1"),), (("1", "U0"), ("2", "U1")), (("2", "U1"), ("1", "U0"))]


def classification(prog, rep, tier):
    """The join tool is interpreted abstractly on two inputs of up to three records each for every order pattern of
    their keys (first file sorted, second sorted without repeats, as the join requires) and every choice of requested
    unmatched outputs: the joined output gets one line for each first-file record that has a partner, built from that
    record and its partner, and each requested unmatched output gets exactly its own input's partnerless records."""
    path = tools(prog).get("join")
    if path is None:
        rep.unk("classification", "join", "no such tool")
        return
    js = []
    for n0, n1 in sizes(tier):
        for left, right in patterns(max(n0, 0), max(n1, 0)):
            for also in ALSO if (n0 + n1) < 5 else ALSO[-2:]:
                js.append((n0, n1, left, right, also))
    par(rep, js, lambda j, r: one(prog, r, path, *j), chunk=8)


class Sized(Keyed):
    n = {}

    def open_file(self, eng, st, name, what):
        self.shapes = (self.n.get(name, 1),)
        return super().open_file(eng, st, name, what)


def one(prog, rep, path, n0, n1, left, right, also):
    w = Sized(prog, files=("F0", "F1"), options=tuple(("also", "%s,%s" % a) for a in also), opaque=OPAQUE)
    w.n = {"F0": n0, "F1": n1}
    w.keys = {"rec:F0:%d" % (i + 1): k for i, k in enumerate(left)}
    w.keys.update({"rec:F1:%d" % (i + 1): k for i, k in enumerate(right)})
    w.answers = w.answers_for
    label = "%s keys %s / %s%s" % ("join", list(left) if n0 >= 0 else "no bytes", list(right) if n1 >= 0 else "no bytes",
                                 " also " + " ".join(a[0] for a in also) if also else "")
    w.run(path, steps=30000)
    rep.count("abstract runs")
    want = {"W:U0": [i + 1 for i, k in enumerate(left) if k not in right],
            "W:U1": [i + 1 for i, k in enumerate(right) if k not in left]}
    pairs = [(i + 1, right.index(k) + 1) for i, k in enumerate(left) if k in right]
    asked = {"W:" + a[1] for a in also}
    bad = None
    for v, st in w.exits:
        rep.count("exits judged")
        if not isok(v):
            if iserr(v) and "No output columns" in w.mention(w.eng, st, v):
                continue
            nm = w.eng.nm(v) or ""
            continue
        got = {}
        lines, cur = [], None
        for e in st.mon[1]:
            if e[0] != "w":
                continue
            recs = [(f, int(i)) for f, i in REC.findall(e[2])]
            if e[1] in asked:
                for f, i in recs:
                    if f != ("F0" if e[1] == "W:U0" else "F1"):
                        bad = bad or (st, "a record of %s is written to the unmatched output of the other file" % f)
                    else:
                        l = got.setdefault(e[1], [])
                        l.append(i)
            elif recs:
                for f, i in recs:
                    if f == "F0":
                        if cur is None or cur[0] not in (None, i):
                            cur = [i, set()]
                            lines.append(cur)
                        cur[0] = i
                    elif cur is not None:
                        cur[1].add(i)
                    else:
                        cur = [None, {i}]
                        lines.append(cur)
            elif e[2] in ("10", "b'\\n'", "'\n'"):
                cur = None          # end of line
        seq = [l[0] for l in lines]
        if seq != [p[0] for p in pairs]:
            bad = bad or (st, "the joined output is made of first-file records %s instead of %s" % (seq, [p[0] for p in pairs]))
        else:
            for l, p in zip(lines, pairs):
                if l[1] - {p[1]}:
                    bad = bad or (st, "first-file record %d is joined with record %s instead of %d" % (l[0], sorted(l[1]), p[1]))
        for a in asked:
            if got.get(a, []) != want[a]:
                bad = bad or (st, "the unmatched output of file %s gets records %s instead of %s" % (
                    1 if a == "W:U0" else 2, got.get(a, []), want[a]))
    if not any(isok(v) for v, st in w.exits):
        raise Undecided("no successful run")
    if bad:
        rep.bad("classification", "join", where(prog.bodies[path]), "%s: %s" % (label, bad[1]), bad[0].trace(30))
    else:
        rep.ok("classification", label)


def rejects(prog, rep, tier):
    """A join that cannot be done (one file, three files, an unmatched output for a file that is not there, two for the
    same file) is an error."""
    path = tools(prog).get("join")
    if path is None:
        rep.unk("rejects", "join", "no such tool")
        return
    for files, also, what in ((("F0",), (), "one file"), (("F0", "F1", "F2"), (), "three files"),
                              (("F0", "F1"), ("0,U",), "--also 0"), (("F0", "F1"), ("3,U",), "--also 3"),
                              (("F0", "F1"), ("1,U", "1,V"), "--also twice for file 1"),
                              (("F0", "F1"), ("2,U", "2,V"), "--also twice for file 2")):
        w = World(prog, files=files, shapes=(-1, 1), options=tuple(("also", a) for a in also), opaque=OPAQUE)
        try:
            w.run(path, steps=30000)
        except Undecided as e:
            rep.unk("rejects", what, e)
            continue
        bad = [st for v, st in w.exits if isok(v)]
        if bad:
            rep.bad("rejects", what, where(prog.bodies[path]), "join with %s is accepted" % what, bad[0].trace(20))
        else:
            rep.ok("rejects", "%s: %d exits" % (what, len(w.exits)))


RULES = [classification, rejects]
