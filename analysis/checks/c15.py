"""C15: only named outputs are created, whole, and inputs are never modified."""
import itertools
import re
from ..absint import Undecided, UNIT, TOP, deepval, mk
from ..models import RES
from ..world import World, tools
from .. import toolruns
from .common import par, where, outcomes, boolof

OPTS = re.compile(r"(std::fs|fs_err::open_options|fs_err|tokio::fs::open_options|tokio::fs)::OpenOptions::(\w+)$")
# what a function of the standard library or a dependency does to the file system
CREATE = re.compile(r"(std::fs|fs_err|fs_err::file|tokio::fs|tokio::fs::file)::(File::create|File::create_new|File::create_buffered|write|write::write)$")
REMOVE = re.compile(r"(std::fs|fs_err|fs_err::\w+|tokio::fs|tokio::fs::\w+)::(remove_file|remove_dir|remove_dir_all)$")
MKDIR = re.compile(r"(std::fs|fs_err|fs_err::\w+|tokio::fs|tokio::fs::\w+)::(create_dir|create_dir_all)$")
CHANGE = re.compile(r"(std::fs|fs_err|fs_err::\w+|tokio::fs|tokio::fs::\w+)::(rename|copy|hard_link|soft_link|set_permissions|File::set_len|File::set_permissions|File::set_times|File::set_modified)$"
                    r"|std::os::unix::fs::(symlink|chown|lchown|fchown)$|memmap2::(Mmap::make_mut|MmapMut::\w+|MmapOptions::map_mut|MmapOptions::map_raw)$"
                    r"|libc::.*::(unlink|unlinkat|rename|renameat|truncate|ftruncate|creat|rmdir|link|symlink|chmod|fchmod|chown|remove|mknod|fallocate)$"
                    r"|aws_sdk_s3::client::(put|delete|copy|create|upload|write|restore|complete)_\w+::")
SPAWN = re.compile(r"(std::process|tokio::process)::Command::new$|libc::.*::(system|execve?p?|fork|posix_spawnp?)$")
KEEP = re.compile(r"tempfile::.*::(into_path|keep|persist|persist_noclobber|disable_cleanup|into_temp_path)$")
LEAK = ("core::mem::forget", "core::mem::manually_drop::ManuallyDrop::<T>::new", "alloc::boxed::Box::<T, A>::leak", "alloc::boxed::Box::<T>::leak",
        "alloc::boxed::Box::<T, A>::into_raw", "alloc::boxed::Box::<T>::into_raw")
EXIT = ("std::process::exit", "std::process::abort", "core::intrinsics::abort")


def target(c):
    return c.res or c.fn


def sites(prog, rx):
    """[(path, body, block, term, callee)] of external calls that match."""
    out = []
    for p, b in sorted(prog.bodies.items()):
        for i, t in b.calls():
            c = prog.callee(t)
            if c and (rx.search(target(c)) or rx.search(c.fn)):
                out.append((p, b, i, t, c))
        for r in prog.fn_refs(b):
            if rx.search(r) and not any(prog.callee(t) and rx.search(target(prog.callee(t))) for i, t in b.calls()):
                out.append((p, b, None, None, r))
    return out


def live(prog):
    """Functions reachable from the program's entry."""
    c = getattr(prog, "_live", None)
    if c is None:
        c = prog._live = prog.reachable_from(["bin::main"]) | set(tools(prog).values())
        c |= prog.reachable_from(sorted(c))
    return c


# ---------------------------------------------------------------------- provenance of file names
TRANS = {"as_ref", "to_str", "to_string_lossy", "to_owned", "into_owned", "to_string", "as_str", "as_path", "deref", "clone", "unwrap", "expect",
         "into_os_string", "as_os_str", "into", "from", "borrow", "to_path_buf", "into_string", "unwrap_or_default", "into_boxed_str", "as_mut", "display"}


SEP = "\u241e"


def leaves(eng, st, v, d=0):
    """Where a name comes from: [text] in order; constants are quoted; '~' is unknown."""
    if d == 0:
        v = deepval(eng, st, v)
    if d > 12:
        return ["~"]
    if v[0] in ("s", "b"):
        x = v[1] if isinstance(v[1], str) else bytes(v[1]).decode("latin1")
        return ["'" + x + "'"]
    if v[0] == "t":
        out = []
        for x in v[2]:
            out += leaves(eng, st, deepval(eng, st, x), d + 1)
        return out
    if v[0] == "e" and len(v[3]) == 1:
        return leaves(eng, st, deepval(eng, st, v[3][0]), d + 1)
    if v[0] == "c":
        return ["'%s'" % v[1]]
    n = eng.nm(v)
    return parts(n) if n else ["~"]


def whole(s):
    """Are these the arguments of one call?"""
    d = 0
    for c in s:
        d += (c == "(") - (c == ")")
        if d < 0:
            return False
    return d == 0


def show(names):
    return "".join(c if c.isprintable() else "?" for c in "+".join(names))


def parts(n):
    n = re.sub(r"\*|\.deref\b", "", n)
    while n.endswith(("@Ok.0", "@Some.0", "@Borrowed.0", "@Owned.0")):
        n = n[:n.rindex("@")].rstrip("*")
    m = re.match(r"CAT\((.*)\)$", n, re.S)
    if m:
        out = []
        for x in m.group(1).split(SEP):
            out += parts(x)
        return out
    m = re.match(r"(?:[\w:<> ]*::)?(\w+)\((.*)\)$", n, re.S)
    if m and (m.group(1) in TRANS or n.startswith("Path::new(")) and whole(m.group(2)):
        return parts(m.group(2))
    m = re.match(r"<c[^>]*>@Some\.0\.([a-zA-Z][\w.]*)$", n)
    if m:
        return ["item." + m.group(1)]
    if n.startswith("<") or n == "~" or "<h" in n or "<c" in n or "phi<" in n or "~" in n:
        return ["~"]
    return [n]


def cat(*xs):
    fl = []
    for x in xs:
        fl += x
    # a separator at the end of a directory's name does not change where the name comes from
    fl = [x for i, x in enumerate(fl) if i == 0 or x not in ("'/'", "'47'")] or ["''"]
    return mk("CAT(" + SEP.join(fl) + ")")


class Effects:
    """Hook that records what a function does to the file system; mon = (options, events)."""

    def __init__(self, prog):
        self.prog = prog
        self.events = []

    def ev(self, st, kind, call, names, flags=None):
        self.events.append((kind, call.where(), names, flags, st))

    def __call__(self, eng, st, call):
        c = call.callee
        if c is None:
            return None
        fn, f0 = target(c), c.fn
        m = OPTS.search(fn) or OPTS.search(f0)
        if m:
            return self.options(eng, st, call, m.group(2))
        if fn.endswith("File::options"):
            return self.options(eng, st, call, "new")
        a = call.args
        if CREATE.search(fn):
            self.ev(st, "create", call, leaves(eng, st, a[0]), {"write": 1, "create": 1, "truncate": 1})
            return None
        if REMOVE.search(fn):
            self.ev(st, "remove", call, leaves(eng, st, a[0]))
            return None
        if MKDIR.search(fn):
            self.ev(st, "mkdir", call, leaves(eng, st, a[0]))
            return None
        if fn == "cdx::util::get_writer":
            self.ev(st, "writer", call, leaves(eng, st, a[0]))
            return None
        if fn.startswith("tempfile::") and c.name == "path":
            return [(mk("TMPDIR"), st)]
        if fn.endswith("env::temp_dir") or f0.endswith("env::temp_dir"):
            return [(mk("SYSTMP"), st)]
        if c.name in ("push_str", "push", "extend_from_slice") and re.search(r"String|PathBuf|OsString", fn + f0):
            loc = eng.deref(a[0])
            if loc is None:
                return None
            new = cat(leaves(eng, st, eng.read(st, loc[0], loc[1])), leaves(eng, st, a[1]))
            eng.write(st, loc[0], loc[1], new)
            return [(UNIT, st)]
        if c.name == "clone_from" and len(a) == 2 and re.search(r"String|PathBuf|OsString", fn + f0 + self.tys(call)):
            loc = eng.deref(a[0])
            if loc is None:
                return None
            eng.write(st, loc[0], loc[1], cat(leaves(eng, st, a[1])))
            return [(UNIT, st)]
        if c.name in ("to_string", "to_owned", "clone", "into_owned", "to_string_lossy", "into", "from") and len(a) == 1 and re.search(
                r"^(alloc::string::String|std::path::PathBuf|std::ffi::(os_str::)?OsString|alloc::borrow::Cow<.*str>)$", self.dty(eng, call)):
            ls = leaves(eng, st, a[0])
            if "~" not in ls and not all(x.startswith("'") for x in ls):
                return [(cat(ls), st)]
        if c.name in ("join", "with_extension", "with_file_name", "with_added_extension") and "path::Path" in fn + f0:
            return [(cat(leaves(eng, st, a[0]), leaves(eng, st, a[1])), st)]
        if c.name in ("add", "concat") and "String" in fn + self.tys(call):
            return [(cat(*[leaves(eng, st, x) for x in a]), st)]
        if fn in ("alloc::fmt::format", "core::fmt::rt::Argument::new_display") or f0.startswith("core::fmt::rt::Argument") or "fmt::Arguments" in fn:
            out = []
            for x in a:
                out += leaves(eng, st, x)
            # the pieces of a format string come apart from its arguments: what is not constant counts first
            out.sort(key=lambda x: x.startswith("'"))
            return [(cat(out), st)]
        return None

    def dty(self, eng, call):
        t = eng.placetype(call.body, call.term["d"])
        return self.prog.types[t]["s"] if t is not None else ""

    def tys(self, call):
        c = call.callee
        return " ".join(self.prog.types[g]["s"] for g in (c.ga or []) if g is not None)

    def options(self, eng, st, call, what):
        n = None
        if what != "new":
            w = deepval(eng, st, call.args[0])
            m = re.search(r"OO\{([^}]*)\}", eng.nm(w) or "")
            n = m and m.group(1)
            if n is None:
                if what == "open":
                    self.ev(st, "open", call, leaves(eng, st, call.args[1]), None)
                return None
        if what == "new":
            return [(mk("OO{}"), st)]
        fl = dict(x.split("=") for x in n.split(",") if x)
        if what == "open":
            self.ev(st, "open", call, leaves(eng, st, call.args[1]), fl)
            return None
        if what in ("read", "write", "append", "truncate", "create", "create_new"):
            out = []
            v = eng.norm(st, call.args[1])
            for val, s in eng.fork_bool(st, v):
                fl2 = dict(fl)
                # "p": decided by a parameter of the function, as it stands
                fl2[what] = str(val) + ("p" if v[0] != "c" and re.match(r"\w+$", (eng.nm(v) or "").replace("!", "")) else "")
                loc = eng.deref(call.args[0])
                new = mk("OO{" + ",".join("%s=%s" % kv for kv in sorted(fl2.items())) + "}")
                if loc is not None:
                    eng.write(s, loc[0], loc[1], new)
                    out.append((call.args[0], s))
                else:
                    out.append((new, s))
            return out
        return [(call.args[0], st)]


def effects(prog, path, args=None, store=None, steps=30000, inline=()):
    """Events of a function.  Decisions on whether a string of the caller's is empty are taken up front (one run for each
    outcome), so that what depends on them is not blurred where paths meet."""
    evs, m = effects1(prog, path, args, store, steps, None, inline)
    keys = sorted({k for e in evs for k in e[4].asm if re.match(r"eq\(0,len\([\w.*]+\)\)$", k)})
    if keys and any("~" in e[2] for e in evs):
        evs = []
        for vals in itertools.product((0, 1), repeat=min(2, len(keys))):
            e2, m = effects1(prog, path, args, store, steps, {k: ("c", v) for k, v in zip(keys, vals)}, inline)
            evs += e2
    return evs, m


def effects1(prog, path, args=None, store=None, steps=30000, asm=None, inline=()):
    h = Effects(prog)
    reach = getattr(prog, "_c15reach", None)
    if reach is None:
        reach = prog._c15reach = prog.reaches(lambda x: OPTS.search(x) or CREATE.search(x) or REMOVE.search(x) or MKDIR.search(x)
                                              or x.endswith("File::options"))
    m = outcomes(prog, path, args=args, store=store, hook=h, steps=steps, asm=asm,
                 relevant=lambda p: p in reach and (p != "cdx::util::get_writer" or p in inline) or small_str(prog, p))
    return h.events, m


def small_str(prog, p):
    """Helpers that build a name: short functions returning a String or a path."""
    b = prog.bodies.get(p)
    if b is None or "{closure" in p:
        return b is not None
    t = prog.types[b.locals[0]]["s"]
    return len(b.bbs) < 25 and ("String" in t or "PathBuf" in t)


def callers(prog, path):
    out = []
    for p, b in sorted(prog.bodies.items()):
        for i, t in b.calls():
            c = prog.callee(t)
            if c and (target(c) == path or path in prog.local_targets(c)):
                out.append(p)
                break
    return [re.sub(r"::\{closure.*", "", p) for p in out if p != path]


def up(prog, path, judge, depth=0, seen=()):
    """judge(path) -> None when settled, else a reason to look at the callers instead."""
    why = judge(path)
    if why is None:
        return []
    if depth >= 3 or path in seen or not why[2]:
        return [why]
    cs = [c for c in callers(prog, path) if c in live(prog)]
    if not cs:
        return [why]
    out = []
    for c in cs:
        out += up(prog, c, judge, depth + 1, seen + (path,))
    return out


# ---------------------------------------------------------------------- rules
def open_modes(prog, rep, tier):
    """Wherever the program opens a file with explicit options, the function (and, for options that its callers choose,
    each caller) is interpreted abstractly: on every path a file is opened either for reading only, or so that it is
    created and its old content is discarded (truncate, or create_new), never for appending or in-place writing."""
    roots = sorted({re.sub(r"::\{closure.*", "", p) for p, b, i, t, c in sites(prog, OPTS)})
    rep.count("functions that open files with explicit options", len(roots))
    for p in roots:
        if p not in live(prog):
            continue
        found = {}

        def judge(path):
            evs, m = effects(prog, path, inline={p})
            n = 0
            why = None
            for kind, wh, names, fl, st in evs:
                if kind != "open":
                    continue
                n += 1
                if fl is None:
                    raise Undecided("options of the open at %s" % wh)
                g = {k: v[0] == "1" for k, v in fl.items()}
                dep = any(v.endswith("p") for v in fl.values())
                if g.get("append") or g.get("write") and not (g.get("truncate") or g.get("create_new")):
                    why = (wh, "a file is opened for writing without discarding its old content (%s)" % (
                        ", ".join(k for k in sorted(g) if g[k])), dep, st.trace(10))
                elif g.get("write") and not (g.get("create") or g.get("create_new")):
                    why = (wh, "an output file is opened without being created when it is missing", dep, st.trace(10))
            if not n and path in roots:
                raise Undecided("no open reached in %s" % path)
            return why
        try:
            bads = up(prog, p, judge)
        except Undecided as e:
            rep.unk("open_modes", p, e)
            continue
        for wh, what, dep, tr in bads[:1]:
            rep.bad("open_modes", p, wh, what, tr)
        if not bads:
            rep.ok("open_modes", p)


def given(prog, path, n):
    """Is this leaf a value handed to the function (a parameter or a field of one)?"""
    b = prog.bodies[path]
    names = {b.varname(i) or "a%d" % i for i in range(1, b.nargs + 1)}
    return re.split(r"[.*@\[( ]", n)[0] in names


def removals(prog, rep, tier):
    """Nothing is deleted except inside the program's own temporary directory: for every call that removes a file or a
    directory, the path is followed back (through callers where a parameter decides) and must start with the path of a
    temporary directory object on every path on which the removal happens."""
    ss = [s for s in sites(prog, REMOVE)]
    rep.count("calls that delete", len(ss))
    for p in sorted({re.sub(r"::\{closure.*", "", s[0]) for s in ss}):
        if p not in live(prog):
            continue

        def judge(path):
            evs, m = effects(prog, path)
            evs = [e for e in evs if e[0] == "remove"]
            why = None
            for kind, wh, names, fl, st in evs:
                if names and names[0] == "TMPDIR":
                    continue
                if not names or names[0] == "~":
                    raise Undecided("path removed at %s" % wh)
                g = given(prog, path, names[0])
                if not g and not names[0].startswith("'") and names[0] != "SYSTMP":
                    raise Undecided("path removed at %s: %s" % (wh, names[0][:60]))
                why = (wh, "deletes %s, which is not in a temporary directory of the program" % show(names), g, st.trace(10))
            if not evs and path == p:
                raise Undecided("no removal reached in %s" % path)
            return why
        try:
            bads = up(prog, p, judge)
        except Undecided as e:
            rep.unk("removals", p, e)
            continue
        for wh, what, dep, tr in bads[:1]:
            rep.bad("removals", p, wh, what, tr)
        if not bads:
            rep.ok("removals", p)


def no_other_effects(prog, rep, tier):
    """No function reachable from a tool renames, copies over, links, resizes, maps writable or changes the permissions
    of a file, or modifies a stored object; only the test runner starts other programs."""
    n = 0
    for p, b in sorted(prog.bodies.items()):
        n += 1
    bad = 0
    for rx, what in ((CHANGE, "changes a file in place"), (SPAWN, "starts another program")):
        for p, b, i, t, c in sites(prog, rx):
            q = re.sub(r"::\{closure.*", "", p)
            if q not in live(prog) or what.startswith("starts") and only_tooltest(prog, q):
                continue
            bad += 1
            nm = c if isinstance(c, str) else target(c)
            rep.bad("no_other_effects", "%s:%s" % (q, nm), "%s:%s in %s" % (b.file, t["ln"] if t else b.line, p), "%s with %s" % (what, nm))
    if not bad:
        rep.ok("no_other_effects", "%d functions" % n)


def only_tooltest(prog, q):
    ts = tools(prog)
    return not any(q in prog.reachable_from([m]) for t, m in ts.items() if t != "tooltest")


def dirfields(prog):
    """Fields that hold the name of a directory the program was asked to use (and created)."""
    out = set()
    for p in sorted({re.sub(r"::\{closure.*", "", s[0]) for s in sites(prog, MKDIR)}):
        try:
            evs, m = effects(prog, p)
        except Undecided:
            continue
        for e in evs:
            if e[0] != "mkdir":
                continue
            for n in e[2]:
                if "." in n:
                    out.add(n.rsplit(".", 1)[1])
            for root, val in e[4].store.items():
                if root[0] == "O" and val[0] == "m" and prog.adt_of(val[2]) in prog.adts:
                    fs = prog.adts[prog.adt_of(val[2])]["variants"][0]["fields"]
                    for k, x in val[3]:
                        if k[0] == "f" and e[2][0] in leaves(m.eng, e[4], x)[:1]:
                            out.add(fs[k[1]]["name"])
    return out


def directories(prog, rep, tier):
    """A directory is created only where the user's own words name it: the path given to every create_dir call comes from
    the function's caller, not from a constant or from the system's temporary directory (temporary directories are
    objects that remove themselves)."""
    ss = sites(prog, MKDIR)
    for p in sorted({re.sub(r"::\{closure.*", "", s[0]) for s in ss}):
        if p not in live(prog):
            continue
        try:
            evs, m = effects(prog, p)
        except Undecided as e:
            rep.unk("directories", p, e)
            continue
        bad = False
        for kind, wh, names, fl, st in evs:
            if kind == "mkdir" and (not names or names[0].startswith("'") or names[0] == "SYSTMP"):
                bad = True
                rep.bad("directories", p, wh, "creates the directory %s" % show(names), st.trace(8))
        if not bad:
            rep.ok("directories", p)


def okname(names):
    """None if this may be the name of an output, else why not."""
    if names == ["'-'"] or names == ["'--'"]:
        return None
    if not names or names[0] == "~":
        return "unknown"
    if names[0] == "TMPDIR":
        return None
    if names[0].startswith("'") or names[0] == "SYSTMP":
        return "has a fixed name"
    return "given"


class NamesWorld(World):
    """Remembers the name of every output that is opened."""

    def on_call(self, eng, st, call):
        c = call.callee
        if c is not None:
            fn = target(c)
            if fn == "cdx::util::get_writer" or CREATE.search(fn):
                self.opened.append((call.where(), leaves(eng, st, call.args[0]), st))
            elif fn.startswith("tempfile::") and c.name == "path":
                return [(mk("TMPDIR"), st)]
        return World.on_call(self, eng, st, call)

    def run(self, *a, **k):
        self.opened = []
        return World.run(self, *a, **k)


def output_names(prog, rep, tier):
    """Abstract runs of every tool with each advertised option: every output that is opened is standard output (or error)
    or is named, unchanged, by the value of an option; never an input file, a fixed name, or a name derived from one."""
    par(rep, toolruns.jobs(prog, rep, "output_names", skip=("tooltest",)), lambda j, r: names_one(prog, r, *j))


def names_one(prog, rep, tool, path, label, files, opts):
    w = toolruns.run(prog, path, files, opts, ladder=((0, 2), (2,)), cls=NamesWorld)
    vals = {"'%s'" % v for n, v in opts if v} | {"'%s'" % x for n, v in opts if v for x in v.split(",")}
    bad = False
    for wh, names, st in w.opened:
        rep.count("outputs opened")
        if names in (["'-'"], ["'--'"]) or names and names[0] == "TMPDIR":
            continue
        if len(names) == 1 and (names[0] in vals or "V:" in names[0]) and names[0] not in ["'%s'" % f for f in files]:
            continue
        if "~" in names or not names:
            rep.unk("output_names", "%s %s" % (tool, label), "name of the output opened at " + wh)
            bad = True
            continue
        if len(names) == 1 and not names[0].startswith("'") and "V:" not in names[0]:
            continue
        bad = True
        rep.bad("output_names", "%s:%s" % (tool, label), wh, "%s %s opens an output named %s, which the user did not name as one" % (
            tool, label, show(names)), st.trace(12))
        break
    if not bad:
        rep.ok("output_names", "%s %s: %d outputs" % (tool, label, len(w.opened)))


def library_outputs(prog, rep, tier):
    """Library functions that open an output: the name is exactly a value handed to them, standard output, or a path in a
    temporary directory object; a path built by appending to a given value is accepted only where that value is a
    directory the user asked for.  get_writer itself opens exactly the file it is given, and none for '-' and '--'."""
    dirs = dirfields(prog)
    ts = set(tools(prog).values())
    names = []
    rx = re.compile(CREATE.pattern + r"|^cdx::util::get_writer$")
    for p in sorted({re.sub(r"::\{closure.*", "", s[0]) for s in sites(prog, rx) + sites(prog, OPTS)}):
        if p in ts or p not in live(prog):
            continue
        try:
            evs, m = effects(prog, p)
        except Undecided as e:
            rep.unk("library_outputs", p, e)
            continue
        bad = False
        seen = set()
        for kind, wh, names, fl, st in evs:
            if kind not in ("writer", "create", "open") or kind == "open" and (fl or {}).get("write", "0")[0] != "1":
                continue
            rep.count("outputs opened")
            r = okname(names)
            if r == "unknown":
                if wh not in seen:
                    rep.unk("library_outputs", p, "name of the output opened at " + wh)
                seen.add(wh)
                continue
            if r is None or r == "given" and (len(names) == 1 or names[0].rsplit(".", 1)[-1] in dirs):
                continue
            if r == "given":
                r = "has a name made from a given one"
            bad = True
            rep.bad("library_outputs", p, wh, "the output %s %s" % (show(names), r), st.trace(10))
        if not bad and not seen:
            rep.ok("library_outputs", "%s: %d openings" % (p, len(evs)))
    g = "cdx::util::get_writer"
    if g in prog.bodies:
        for nm, want in (("-", 0), ("--", 0), ("out", 1), ("-x", 1)):
            try:
                evs, m = effects(prog, g, args={1: ("s", nm)})
            except Undecided as e:
                rep.unk("library_outputs", g, e)
                continue
            got = [e for e in evs if e[0] in ("open", "create")]
            odd = [e for e in got if e[2] != ["'%s'" % nm]]
            if odd and "~" in odd[0][2]:
                rep.unk("library_outputs", g, "path at " + odd[0][1])
            elif odd or bool(got) != bool(want):
                rep.bad("library_outputs", g, odd[0][1] if odd else where(prog.bodies[g]),
                        "an output named %s opens %s" % (nm, " ".join(show(e[2]) for e in got) or "nothing"))
            else:
                rep.ok("library_outputs", "get_writer(%s)" % nm)


def has_tmp(prog, ty):
    return ty is not None and prog.contains_adt(ty, lambda d: d.startswith("tempfile::"))


def temporaries_removed(prog, rep, tier):
    """Temporary directories remove themselves: no function reachable from a tool detaches, keeps or leaks one, and
    nothing ends the process while one is alive (no process::exit or abort is reachable after one has been made)."""
    n = bad = 0
    lv = live(prog)
    ex = prog.reaches(lambda x: x in EXIT)
    for p, b in sorted(prog.bodies.items()):
        q = re.sub(r"::\{closure.*", "", p)
        if q not in lv:
            continue
        holds = any(has_tmp(prog, b.locals[i]) for i in range(1, b.nargs + 1))
        for i, t in b.calls():
            c = prog.callee(t)
            if c is None:
                continue
            n += 1
            f = target(c)
            if KEEP.search(f) or KEEP.search(c.fn):
                bad += 1
                rep.bad("temporaries_removed", q + ":" + f, "%s:%s in %s" % (b.file, t["ln"], p), "keeps a temporary file or directory with %s" % f)
            if (f in LEAK or c.fn in LEAK) and any(has_tmp(prog, g) for g in (c.ga or [])):
                bad += 1
                rep.bad("temporaries_removed", q + ":" + f, "%s:%s in %s" % (b.file, t["ln"], p), "leaks a temporary directory with %s" % f)
        if p == "bin::main":
            continue
        ends = [(i, t) for i, t in b.calls() if prog.callee(t) and (target(prog.callee(t)) in EXIT or target(prog.callee(t)) in ex)]
        if ends and not holds:
            after = set()
            for i, t in b.calls():
                if t.get("t") is not None and not t["d"][1] and has_tmp(prog, b.locals[t["d"][0]]):
                    after |= set(b.reach(t["t"]))
            ends = [(i, t) for i, t in ends if i in after]
        for i, t in ends:
            bad += 1
            rep.bad("temporaries_removed", q + ":exit", "%s:%s in %s" % (b.file, t["ln"], p),
                    "%s ends the process while a temporary directory is alive, which is then left behind" % q)
    rep.count("calls examined", n)
    if not bad:
        rep.ok("temporaries_removed", "%d calls in %d reachable functions" % (n, len(lv)))


RULES = [open_modes, removals, no_other_effects, directories, output_names, library_outputs, temporaries_removed]
