#!/usr/bin/env python3
"""mkpatch.py ID FILE OLD NEW [FILE OLD NEW ...] : writes seeded/ID/patch.diff from exact-text replacements against /repo's HEAD."""
import subprocess, sys, os, shutil, tempfile
def patch(sid, reps):
    d = tempfile.mkdtemp()
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (d, d), shell=True, check=True)
        for f, a, b in reps:
            p = os.path.join(d, f)
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        out = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        os.makedirs("/verif/seeded/%s" % sid, exist_ok=True)
        open("/verif/seeded/%s/patch.diff" % sid, "w").write(out)
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    a = sys.argv[2:]
    patch(sys.argv[1], [a[i:i + 3] for i in range(0, len(a), 3)])
