"""Run rules against an edited scratch copy of /repo.

usage: mutate.py C04,C19 FILE OLD NEW [OLD NEW ...]
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(rules, path, *subs):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/echidna", d + "/echidna", ignore=lambda a, b: [
            x for x in b if x.endswith((".pyc", ".hdf5")) or
            x == "__pycache__"])
        p = os.path.join(d, "echidna", path)
        s = open(p).read()
        for a, b in zip(subs[::2], subs[1::2]):
            assert a in s, a
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
        ps = []
        for r in rules.split(","):
            ps.append((r, subprocess.Popen(
                ["python3-vt", HERE + "/check.py", "--property", r],
                env=dict(os.environ, VERIF_DEBUG="1", VERIF_REPO=d, VERIF_EVIDENCE=d),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for r, q in ps:
            out = q.communicate()[0]
            ls = [l for l in out.splitlines() if "VIOLATION" in l or
                  "  undecided" in l or "  violated" in l or "Traceback" in l or
                  "INCOMPLETE" in l] or out.splitlines()[-1:]
            print(r, q.returncode, *[l[:300] for l in ls[:3]], sep="\n   ")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main(*sys.argv[1:])
