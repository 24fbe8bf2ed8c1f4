"""Abstract runs of every tool with every advertised option (shared by several checks)."""
import itertools
from .world import World, tools
from .absint import Undecided
from .checks.c04 import spec_of, OPAQUE

LADDER = ((-1, 0, 1, 2), (-1, 0, 2), (0, 2), (-1, 2), (2,))
# pairs of options that only matter together
PAIRS = {
    "sort": [("merge", "unique"), ("check", "unique"), ("merge", "alt-merge")],
    "verify": [("key", "sort"), ("key", "unique")],
    "paste": [("end=Late", "last"), ("end=Late", "default")],
    "cat": [("number", "skip"), ("number", "remove"), ("begin", "remove"), ("end", "remove")],
    "uniq": [("count", "which"), ("agg", "which")],
    "cgrep": [("pattern", "invert"), ("pattern", "or")],
    "wc": [("columns", "agg"), ("columns", "total"), ("lines", "total"), ("lines", "file")],
    "join": [("also", "output")],
}

# representative values of options whose values select a mode (values are otherwise left unknown)
VALUES = {("uniq", "count"): ["x,begin", "x,end"], ("uniq", "which"): ["first", "last", "min", "max"],
          ("wc", "total"): ["yes", "no", "only"], ("wc", "with-header"): ["yes", "no"], ("wc", "file"): ["yes,x", "no"],
          ("join", "also"): ["1,U", "2,U"], ("join", "output"): ["1.a,2.b", "2.x"],
          ("cat", "number"): ["x,1,begin", "x,1,end"]}


def parse_opt(s):
    n, _, v = s.partition("=")
    return (n, v or None)


def combos(prog, tool, path):
    """[(label, files, options)]"""
    tab, files, site = spec_of(prog, tool, path)
    out = [("", files, ())]
    names = {t[0] for t in tab}
    for name, short, value, choices in tab:
        for v in choices or VALUES.get((tool, name)) or [None]:
            out.append(("--%s%s" % (name, "=" + v if v else ""), files, ((name, v),)))
    for pr in PAIRS.get(tool, []):
        os = [parse_opt(x) for x in pr]
        if all(o[0] in names for o in os):
            for os2 in itertools.product(*[[o] if o[1] or (tool, o[0]) not in VALUES else
                                           [(o[0], v) for v in VALUES[(tool, o[0])]] for o in os]):
                out.append((" ".join("--%s%s" % (n, "=" + v if v else "") for n, v in os2), files, os2))
    return out


def jobs(prog, rep, rule, skip=()):
    out = []
    for tool, path in tools(prog).items():
        if tool in skip:
            continue
        try:
            cs = combos(prog, tool, path)
        except Undecided as e:
            rep.unk(rule, tool, e)
            continue
        for label, files, opts in cs:
            out.append((tool, path, label, files, opts))
    return out


def run(prog, path, files, options, ladder=LADDER, steps=60000, cls=World, **kw):
    """First rung of the ladder that fits: (world, files, shapes)."""
    last = None
    kw.setdefault("opaque", OPAQUE)
    for fs in ((files, files[:1]) if len(files) > 1 else (files,)):
        for shapes in ladder:
            if not fs and shapes != ladder[0]:
                continue
            w = cls(prog, files=fs, shapes=shapes, options=options, **kw)
            try:
                w.run(path, steps=steps)
                w.bound = (fs, shapes)
                return w
            except Undecided as e:
                last = e
                if "step limit" not in str(e) and "state" not in str(e):
                    raise
    raise last
