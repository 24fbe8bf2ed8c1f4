"""Helper to make planted bugs: seed(id, property, [(file, old, new)], demo, needs, breaks). Works in /tmp/sr, a copy of /repo."""
import subprocess, os, json, shutil, sys, fcntl
SR = "/tmp/sr"
_lock = open("/tmp/seedlib.lock", "w")
fcntl.flock(_lock, fcntl.LOCK_EX)      # one script at a time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def sync():
    if not os.path.exists(SR):
        sh("cp -a /repo /tmp/sr")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SR)


def tests():
    script = open("/opt/vp/test.sh").read()
    sh("sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/sr_env.sh; sed 's#/repo#%s#g; s#/opt/vp/env.sh#/tmp/sr_env.sh#' /opt/vp/test.sh > /tmp/sr_test.sh" % (SR, SR))
    o = sh("bash /tmp/sr_test.sh /tmp/sr_out.json", SR)
    b = json.load(open("/opt/vp/BASELINE.json"))
    try:
        r = json.load(open("/tmp/sr_out.json"))
    except Exception:
        return ["no result " + o.stdout[-2000:]]
    def names(x):
        for k in ("passed", "stable", "tests", "pass"):
            if k in x:
                return set(x[k])
        return set(x)
    return sorted(names(b) - names(r))


def build():
    return sh("sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/sr_env.sh; . /tmp/sr_env.sh; cd %s; cargo build --workspace --offline 2>&1" % (SR, SR))


RUST = """
D=$(cd "$(dirname "$0")" && pwd)
L=$PWD/target/debug
rustc --edition 2021 -A warnings -L $L/deps --extern cdx=$L/libcdx.rlib -o $T/demo $D/demo.rs || exit 2
$T/demo
"""


def seed(sid, prop, edits, demo, needs, breaks, keep=True, files=None):
    sync()
    build()
    d = "/tmp/sr_demo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    head = "#!/bin/bash\n# exit 0: behaves as stated; nonzero: the property is broken\nset -u\nB=$PWD/target/debug/cdx\nT=$(mktemp -d)\ntrap 'rm -rf \"$T\"' EXIT\n"
    open(d + "/demo.sh", "w").write(head + demo.strip("\n") + "\n")
    for n, c in (files or {}).items():
        open(d + "/" + n, "w").write(c)
    r0 = sh("timeout 250 bash %s/demo.sh" % d, SR)
    for f, a, b in edits:
        p = os.path.join(SR, f)
        s = open(p).read()
        if s.count(a) != 1:
            print(sid, "EDIT matches", s.count(a), "times:", a[:80])
            return False
        open(p, "w").write(s.replace(a, b))
    b = build()
    if b.returncode:
        print(sid, "BUILD FAILS", b.stdout[-1500:])
        return False
    r1 = sh("timeout 250 bash %s/demo.sh" % d, SR)
    miss = tests()
    ok = r0.returncode == 0 and r1.returncode != 0 and not miss
    diff = sh("git diff", SR).stdout
    c = sh("bash check.sh %s quick" % prop, V, {"CDX_REPO": SR}) if os.path.exists(V + "/analysis/checks/%s.py" % prop.lower()) else None
    got = "-" if c is None else ("CAUGHT" if c.returncode == 1 and "VIOLATION property=%s " % prop in c.stdout else "missed rc=%d" % c.returncode)
    print(sid, prop, "clean", r0.returncode, "bug", r1.returncode, "tests missing", miss[:4], got)
    if not ok:
        print("   clean:", r0.stdout[-600:], "\n   bug:", r1.stdout[-600:])
    if c is not None and got == "CAUGHT":
        print("   ", [l[:200] for l in c.stdout.splitlines() if l and not l.startswith(" ")][:3])
    if ok and keep:
        t = os.path.join(V, "seeded", sid)
        os.makedirs(t, exist_ok=True)
        for n in os.listdir(d):
            shutil.copy(d + "/" + n, t)
        open(t + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(t + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .", SR)
    return ok
