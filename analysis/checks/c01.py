"""C01: output that could not be written is never reported as success."""
import re
from ..world import World, isok, tools
from ..absint import Undecided
from ..faults import absorbed, candidates
from ..models import RES
from .. import toolruns
from .c04 import OPAQUE
from .common import par, where


def dirty(st):
    return [w for w, d in st.mon[4] if d]


def flushed_on_success(prog, rep, tier):
    """Abstract runs of every tool with each advertised option over inputs of every shape: on every path that ends in
    success, every output that was written to has been flushed after the last write."""
    par(rep, toolruns.jobs(prog, rep, "flushed_on_success", skip=("tooltest",)), lambda j, r: one(prog, r, *j))


def one(prog, rep, tool, path, label, files, opts):
    w = toolruns.run(prog, path, files, opts, ladder=((-1, 0, 2), (0, 2), (-1, 2), (2,)))
    rep.count("abstract runs")
    rep.count("paths to an exit", len(w.exits))
    bad = False
    for v, st in w.exits:
        if isok(v) and dirty(st):
            bad = True
            rep.bad("flushed_on_success", "%s:%s" % (tool, label), where(prog.bodies[path]),
                    "%s %s succeeds with unflushed output in %s" % (tool, label, ", ".join(dirty(st))), st.trace(20))
    if not bad:
        rep.ok("flushed_on_success", "%s %s: %d exits" % (tool, label, len(w.exits)))


def owners_flush(prog, rep, tier):
    """Library functions that open an output of their own (temporary runs and the like) and succeed have flushed
    everything they wrote to it."""
    for path, b in sorted(prog.bodies.items()):
        if re.match(r"bin::\w+_main::main$", path) or not any(
                prog.callee(t) and prog.callee(t).target == "cdx::util::get_writer" for i, t in b.calls()):
            continue
        if prog.types[b.locals[0]].get("d") != RES:
            continue
        w = World(prog, files=("F0",), shapes=(-1, 0, 2), opaque=OPAQUE)
        args = {i: ("s", "F0") for i in range(1, b.nargs + 1) if prog.types[b.locals[i]]["s"] in ("&str", "&'{erased} str")}
        try:
            w.run(path, args=args, store={}, steps=6000)
        except Undecided as e:
            rep.unk("owners_flush", path, e)
            continue
        bad = False
        for v, st in w.exits:
            # an output that is handed back to the caller is the caller's to flush
            left = [x for x in dirty(st) if x not in (w.mention(w.eng, st, v) or "")]
            if isok(v) and left:
                bad = True
                rep.bad("owners_flush", path, where(b), "%s succeeds with unflushed output in %s" % (path, ", ".join(left)), st.trace(20))
        if not bad:
            rep.ok("owners_flush", "%s: %d exits" % (path, len(w.exits)))


def writes(prog):
    """Functions that (may) write to an output."""
    c = getattr(prog, "_writes", None)
    if c is None:
        c = prog._writes = prog.reaches(lambda x: "io::write::Write::" in x or "Write>::" in x or x == "cdx::util::get_writer"
                                        or "BufWriter" in x)
    return c


def write_failures(prog, rep, tier):
    """Each function that writes is interpreted abstractly with each of its writing calls (methods of Write, opening an
    output, and functions that are given an output or open one) failing in turn: every path on which the call failed
    ends in an error."""
    wr = writes(prog)

    def only(c, call):
        f = c.res or c.fn
        if "io::write::Write" in c.fn or "Write>::" in f or f == "cdx::util::get_writer" or "BufWriter" in f:
            return True
        return f in wr or any(t in wr for t in prog.local_targets(c))
    ps = [p for p in candidates(prog) if p in wr and p != "bin::main" and not p.startswith("cdx::tooltest::")]
    par(rep, ps, lambda p, r: wf(prog, r, p, only), chunk=8)


def wf(prog, rep, path, only):
    try:
        bad, sites = absorbed(prog, path, only)
    except Undecided as e:
        rep.unk("write_failures", path, e)
        return
    if not sites:
        return
    rep.count("writing call sites", len(sites))
    for call, v, st in bad:
        rep.bad("write_failures", "%s:%s" % (path, call.callee.target), call.where(),
                "%s carries on after %s failed" % (path, call.callee.target), st.trace(14))
    if not bad:
        rep.ok("write_failures", "%s: %d sites" % (path, len(sites)))


def no_short_writes(prog, rep, tier):
    """Nothing relies on Write::write (which may accept only part of its data) or on an output being flushed when it is
    dropped by way of into_inner/into_parts; only write_all and formatted writes are used."""
    n = 0
    for path, b in sorted(prog.bodies.items()):
        for i, t in b.calls():
            c = prog.callee(t)
            if c is None:
                continue
            if c.trait == "core::io::write::Write" or c.fn.startswith("core::io::write::Write::"):
                n += 1
                if c.name in ("write", "write_vectored") and not re.search(r"Write>::write(_vectored)?$", path):
                    rep.bad("no_short_writes", path, "%s:%s in %s" % (b.file, t["ln"], path),
                            "%s calls Write::%s, which may write only part of the data" % (path, c.name))
            if "BufWriter" in (c.res or c.fn) and c.name in ("into_parts", "forget") or c.fn == "core::mem::forget":
                rep.bad("no_short_writes", path + ":" + c.name, "%s:%s in %s" % (b.file, t["ln"], path),
                        "%s discards a buffered output with %s" % (path, c.name))
    rep.ok("no_short_writes", "%d uses of Write" % n)


RULES = [flushed_on_success, owners_flush, write_failures, no_short_writes]
