"""C13: header policy table."""
from .common import *

HC = "cdx::util::HeaderChecker"
HM = "cdx::util::HeaderMode"
MODES = ["Match", "Require", "Strip", "None", "Trust", "Ignore"]
W, D, R = "write", "drop", "reject"


def expected(mode, first, cdx, headempty, same):
    """Decision documented for one file's first line."""
    if mode == "Ignore":
        return W
    if first:
        return {"Match": W, "Trust": W, "Require": W if cdx else R, "Strip": D if cdx else W, "None": R if cdx else W}[mode]
    if mode in ("Match", "Require"):
        if not cdx:
            return R if mode == "Require" or not headempty else W
        return D if not headempty and same else R
    if mode == "None":
        return R if cdx else W
    return D if cdx else W      # Strip, Trust


def mkhook(cdx, same):
    def hook(eng, st, call):
        c = call.callee
        if c is None:
            return None
        if c.name == "starts_with" and len(call.args) == 2:
            a, b = deepval(eng, st, call.args[0]), deepval(eng, st, call.args[1])
            if b[0] == "kp":
                b = b[1]
            if a[0] == "b" and b[0] == "b":
                return [(("c", int(a[1][:len(b[1])] == b[1])), st)]
            if a[0] != "m" or "LINE" not in a[1]:
                return None
            return [(("c", int(cdx)), st)]
        if c.name in ("eq", "ne") and c.trait == "core::cmp::PartialEq":
            a, b = (eng.nm(deepval(eng, st, x)) or "" for x in call.args)
            if ("LINE" in a and ".head" in b) or ("LINE" in b and ".head" in a):
                return [(("c", int(same == (c.name == "eq"))), st)]
        return None
    return hook


def decide(r):
    """Set of decisions and states over the normal outcomes."""
    out = []
    for v, st in r.outs:
        vi = variant_of(r.eng, st, v)
        if vi == 1:
            continue
        if vi is None:
            return None
        b = boolof(r.eng, st, r.eng.payload(v, 0, 0))
        if b is None:
            return None
        out.append((W if b else D, st))
    return out


def policy_table(prog, rep, tier):
    """HeaderChecker::check decides write / drop / reject exactly by the documented table over mode x first-or-later file x
    header present x first file's header present x headers equal, and remembers that a file was seen and the first header."""
    path = HC + "::check"
    b = find_fn(prog, path)
    fields = [f["name"] for f in prog.adts[HC]["variants"][0]["fields"]]
    for mode in MODES:
        for first in (True, False):
            for cdx in (True, False):
                for he in ((True,) if first else (True, False)):
                    for same, empty in ([(True, 0), (False, 0)] if cdx and not he and not first else
                                        [(False, 0)] if cdx else [(False, 0), (False, 1)]):
                        asm = {"SELF*.mode": ev(prog, HM, mode), "SELF*.saw_one": ("c", int(not first)),
                               "eq(0,len(SELF*.head))": ("c", int(he))}
                        asm["eq(0,len(LINE*))"] = ("c", empty)
                        want = expected(mode, first, cdx, he, same)
                        key = "%s,%s,%s%s%s" % (mode, "first" if first else "later", "header" if cdx else "nothing" if empty else "no header",
                                                "" if first else (",first had none" if he else ",first had one"),
                                                ",same" if same else "")
                        r = outcomes(prog, path, {1: mk("SELF", b.locals[1]), 2: mk("LINE", b.locals[2])}, asm=asm,
                                     hook=mkhook(cdx, same))
                        ds = decide(r)
                        if ds is None:
                            rep.unk("policy_table", key, "decision not constant")
                            continue
                        got = {d for d, _ in ds} or {R}
                        if empty and R not in got and want != R:
                            got = {want}    # nothing to write or drop
                        if got != {want}:
                            rep.bad("policy_table", key, where(b), "for (%s) the documented decision is %s, the code decides %s" % (
                                key, want, sorted(got)), ds[0][1].trace() if ds else ())
                            continue
                        rep.ok("policy_table", "%s: %s" % (key, want))
                        if not first:
                            continue
                        for d, st in ds:
                            obj = r.eng.pointee(st, mk("SELF", b.locals[1]))
                            s1 = r.eng.norm(st, r.eng.child(obj, ("f", fields.index("saw_one")), None, ".saw_one"))
                            if s1 == ("c", 0):
                                rep.bad("policy_table", "remember " + key, where(b), "after the first file (%s) later files are still treated as first" % key,
                                        st.trace())
                            h = r.eng.child(obj, ("f", fields.index("head")), None, ".head")
                            changed = h != ("m", "SELF*.head", h[2] if h[0] == "m" else None, ())
                            if mode in ("Match", "Require") and changed != cdx:
                                rep.bad("policy_table", "head " + key, where(b), "the first file's header is %s (%s)" % (
                                    "recorded although absent" if changed else "not remembered", key), st.trace())


def file_form(prog, rep, tier):
    """HeaderChecker::check_file says 'write' exactly for the first file, when it has a header and the policy is to write it."""
    path = HC + "::check_file"
    b = find_fn(prog, path)
    for mode in MODES:
        for first in (True, False):
            for has in (True, False):
                for he in ((True,) if first else (True, False)):
                    same = has and not he
                    asm = {"SELF*.mode": ev(prog, HM, mode), "SELF*.saw_one": ("c", int(not first)),
                           "eq(0,len(SELF*.head))": ("c", int(he))}
                    base = mkhook(has, same)

                    def hook(eng, st, call):
                        c = call.callee
                        if c and c.target == "cdx::util::Reader::has_header":
                            return [(("c", int(has)), st)]
                        if c and c.target == "cdx::util::Reader::header":
                            return [(mk("LINE"), st)]
                        return base(eng, st, call)
                    want = expected(mode, first, has, he, same)
                    if want == W and not (has and first):
                        want = D
                    key = "%s,%s,%s,%s" % (mode, "first" if first else "later", "header" if has else "no header", "none before" if he else "one before")
                    r = outcomes(prog, path, {1: mk("SELF", b.locals[1]), 2: mk("FILE", b.locals[2])}, asm=asm, hook=hook)
                    ds = decide(r)
                    if ds is None:
                        rep.unk("file_form", key, "decision not constant")
                        continue
                    got = {d for d, _ in ds} or {R}
                    if got == {want}:
                        rep.ok("file_form", "%s: %s" % (key, want))
                    else:
                        rep.bad("file_form", key, where(b), "for (%s) the documented decision is %s, the code decides %s" % (key, want, sorted(got)))


def mode_names(prog, rep, tier):
    """Each header mode is selected by its own name in any case, and an unknown name is an error."""
    path = "<%s as core::str::traits::FromStr>::from_str" % HM
    b = find_fn(prog, path)
    names = [v["name"] for v in variants(prog, HM)]
    for s in [x.lower() for x in MODES] + MODES + [x.upper() for x in MODES] + ["", "foo"]:
        want = s.capitalize() if s.capitalize() in MODES else "error"
        r = outcomes(prog, path, {1: ("s", s)})
        got = set()
        for v, st in r.outs:
            vi = variant_of(r.eng, st, v)
            w = variant_of(r.eng, st, r.eng.payload(v, 0, 0)) if vi == 0 else None
            got.add("error" if vi == 1 else (names[w] if w is not None else None))
        if None in got or not got:
            rep.unk("mode_names", s, "not constant")
        elif got == {want}:
            rep.ok("mode_names", "%r is %s" % (s, want))
        else:
            rep.bad("mode_names", s, where(b), "mode name %r gives %s" % (s, sorted(got)))


class Obey(Monitor):
    """state: None | (decision, buffer name, done)"""
    init = None

    def __init__(self, rep, rel, fn):
        self.rep, self.rel, self.fn = rep, rel, fn
        self.sites = set()
        self.bad = {}

    def relevant(self, path):
        return path in self.rel and not path.startswith("<") or path.startswith(self.fn)

    def close(self, eng, st, why):
        m = st.mon
        if m and m[0] == W and not m[2]:
            self.bad.setdefault(("unwritten", m[3]), (why, st.trace()))
        st.mon = None

    def on_call(self, eng, st, call):
        c = call.callee
        if c is None:
            return None
        if c.target in (HC + "::check", HC + "::check_file"):
            self.close(eng, st, "next header")
            self.sites.add(call.where())
            if c.target.endswith("check_file"):
                buf = "HEADER"
            else:
                buf = eng.nm(deepval(eng, st, call.args[1]))
            out = []
            for d in (W, D, R):
                n = st.copy()
                if d == R:
                    v = ("e", RES, 1, (TOP,))
                    n.mon = None
                else:
                    v = ("e", RES, 0, (TRUE if d == W else FALSE,))
                    n.mon = (d, buf, False, call.where())
                n.note("%s policy says %s" % (call.where(), d))
                out.append((v, n))
            return out
        if c.target == "cdx::util::Reader::header":
            return [(mk("HEADER"), st)]
        m = st.mon
        if m and c.name in ("write_all", "add_data", "write", "extend", "push", "write_header"):
            ns = [eng.nm(deepval(eng, st, a)) or "" for a in call.args[1:]]
            if c.name == "write_header" or (m[1] and any(m[1] in x for x in ns)):
                if m[0] == D and c.name not in ("extend", "push"):
                    self.bad.setdefault(("written", m[3]), (call.where(), st.trace()))
                st.mon = (m[0], m[1], True, m[3])
        return None

    def on_exit(self, eng, st, val):
        if variant_of(eng, st, val) != 1:
            self.close(eng, st, "end")


def obeyed(prog, rep, tier):
    """Wherever the policy is consulted, 'write' leads to the line being written (or kept as data) and 'drop' to it not being
    written, on every path."""
    users = set()
    for p, b in prog.bodies.items():
        if p.startswith(HC):
            continue
        for i, t in b.calls():
            c = prog.callee(t)
            if c and c.target in (HC + "::check", HC + "::check_file"):
                users.add(p)
    for p in sorted(users):
        b = prog.bodies[p]
        m = Obey(rep, set(), p)
        try:
            Engine(prog, m, max_depth=4, max_steps=60000, uf=True).run(b)
        except Undecided as e:
            rep.unk("obeyed", p, e)
            continue
        for (kind, site), (why, tr) in m.bad.items():
            rep.bad("obeyed", "%s:%s" % (p, kind), site, "header %s" % ("is written although the policy drops it at " + why if kind == "written"
                    else "is not written although the policy says so (%s)" % why), tr)
        if not m.bad:
            rep.ok("obeyed", "%s obeys the policy at %d call sites" % (p, len(m.sites)))


RULES = [policy_table, file_form, mode_names, obeyed]
