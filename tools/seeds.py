"""Generate and confirm planted bugs.

usage: seeds.py [ID ...]      (all definitions in tools/seeddefs/*.py)

Each definition: seed(id, prop, edits, demo, needs, breaks); edits is a list
of (file under echidna, old, new[, occurrence or None=all]).  Each is applied
to a scratch copy of /repo; the patch, the tests and the demonstration are
confirmed there and the checks named are run against it.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = "28e6743"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def baseline_lines(path):
    """Line numbers (1-based) of /repo's HEAD that base commit introduced."""
    o = sh(["git", "blame", "-s", "--abbrev=7", BASE + "..HEAD", "--",
            path], "/repo").stdout
    own = set()
    for i, l in enumerate(o.splitlines()):
        if l.startswith("^"):
            own.add(i + 1)
    return own


def build(s):
    id, prop, edits, demo, needs, breaks = s
    d = tempfile.mkdtemp(prefix="seed")
    out = os.path.join(VERIF, "seeded", id)
    try:
        sh("git worktree prune; git -C /repo archive HEAD | tar x -C %s" % d,
           "/repo")
        sh("git init -q . && git add -A && git -c user.email=a@b -c "
           "user.name=a commit -qm base", d)
        # ignored build products (data files) are not needed by the demos
        for e in edits:
            p = os.path.join(d, "echidna", e[0])
            t = open(p).read()
            n = t.count(e[1])
            if not n:
                return id, "edit not found: " + e[1]
            if len(e) > 3 and e[3] is None:
                t = t.replace(e[1], e[2])
            elif len(e) > 3:
                parts = t.split(e[1])
                k = e[3]
                t = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
            else:
                if n != 1:
                    return id, "edit ambiguous (%d): %s" % (n, e[1])
                t = t.replace(e[1], e[2])
            open(p, "w").write(t)
        patch = sh("git diff", d).stdout
        if not patch:
            return id, "empty patch"
        note = ""
        cur = None
        for l in sh("git diff -U0", d).stdout.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                own = baseline_lines(cur)
            elif l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, ln = int(a[0]), int(a[1]) if len(a) > 1 else 1
                bad = [x for x in range(st, st + ln) if x not in own]
                if bad:
                    note += " [own lines %s:%s]" % (cur, bad)
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.remove(os.path.join(out, f))
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        for f in ("harness.py", "demo.sh"):
            shutil.copy(os.path.join(HERE, "seedlib", f), out)
        open(os.path.join(out, "demo.py"), "w").write(
            "from harness import *\n\n" + textwrap.dedent(demo).lstrip())
        json.dump({"property": prop, "needs": needs,
                   "what_it_breaks": breaks},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        tmp = tempfile.mkdtemp(prefix="seedd")
        for f in ("harness.py", "demo.sh", "demo.py"):
            shutil.copy(os.path.join(out, f), tmp)
        r1 = sh(["bash", tmp + "/demo.sh"], d)
        sh("git stash -q", d)
        r0 = sh(["bash", tmp + "/demo.sh"], d)
        sh("git stash pop -q", d)
        shutil.rmtree(tmp)
        if r0.returncode != 0:
            return id, "DEMO FAILS UNPATCHED\n" + r0.stdout[-800:]
        if r1.returncode == 0:
            return id, "DEMO PASSES WITH PATCH"
        if "FAILED:" not in r1.stdout:
            note += " [demo: %s]" % r1.stdout.strip().splitlines()[-1][:100]
        r = sh(["python3-vt", VERIF + "/check.py", "--property", prop], VERIF,
               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d,
                        VERIF_DEBUG="1"))
        caught = "caught" if r.returncode == 1 else "MISSED"
        why = [l for l in r.stdout.splitlines() if "  violated" in l or
               "  undecided" in l or "Traceback" in l]
        if caught == "MISSED":
            why = why or r.stdout.splitlines()[-1:]
        return id, "%s %s%s | %s" % (prop, caught, note,
                                     (why or [""])[0].strip()[:150])
    finally:
        shutil.rmtree(d)


def tests(id):
    """The stable tests pass with the patch (serial: build.sh and test.sh
    work on /repo itself)."""
    out = os.path.join(VERIF, "seeded", id)
    r = sh(["git", "apply", out + "/patch.diff"], "/repo")
    if r.returncode:
        return "does not apply " + r.stdout
    try:
        b = sh("bash /opt/vp/build.sh", "/repo")
        t = sh("bash /opt/vp/test.sh /tmp/seed_t.json", "/repo")
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open("/tmp/seed_t.json"))
        return b.returncode, base, res
    finally:
        sh("git checkout -- .", "/repo")


def main():
    want = set(a for a in sys.argv[1:] if not a.startswith("-"))
    for f in sorted(glob.glob(os.path.join(HERE, "seeddefs", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), dict(seed=seed))
    todo = [s for s in SEEDS if not want or s[0] in want or s[1] in want]
    with ThreadPoolExecutor(7) as ex:
        for id, msg in ex.map(build, todo):
            print(id, msg)
            sys.stdout.flush()
    if "-t" in sys.argv:
        for s in todo:
            r = tests(s[0])
            print(s[0], "tests", stable(r))


def stable(r):
    if isinstance(r, str):
        return r
    b, base, res = r
    s = json.dumps(res)
    names = base.get("stable") or base.get("passing") or base
    if isinstance(names, dict):
        names = list(names)
    passed = res.get("passed", res)
    if isinstance(passed, dict):
        passed = [k for k, v in passed.items() if v]
    bad = [n for n in names if n not in passed]
    return "ok" if not bad and b == 0 else "BAD %s %s" % (b, bad)


if __name__ == "__main__":
    main()
