"""bug.py ID [--check]: tries seeded bug ID in a scratch copy of /repo: builds it with lib/gabuild.py,
runs its demo against the unchanged and the changed library, and (with --check) the check of its property
(or the checks named) against the changed tree."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bug = sys.argv[1]
d = os.path.join(V, "seeded", bug)
sc = "/tmp/bug-" + bug
W = "/tmp/bugwork"          # objects are cached by content
prop = json.load(open(d + "/meta.json"))["property"]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, **kw)


shutil.rmtree(sc, ignore_errors=True)
sh("mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s && mkdir -p %s/_build && ln -s /repo/_build/* %s/_build/" % (sc, sc, sc, sc), check=True)
try:
    import re
    port = re.search(r"demo_build (\w+)", open(d + "/demo.sh").read()).group(1)
    env = dict(os.environ, VERIF_REPO=sc, VERIF_WORK=W)

    def demo():
        r = sh("python3 %s/lib/gabuild.py %s" % (V, port), env=env, capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-2000:], r.stderr[-2000:])
            sys.exit("does not build")
        e = dict(os.environ, DEMO_LIBS="%s/lib/plain/libga.a %s/lib/plain/lib%s.a" % (W, W, port))
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd=sc, env=e, capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    if "--nodemo" not in sys.argv:
        print("unchanged:", demo())
    if sh("git apply %s/patch.diff" % d, cwd=sc).returncode:
        # the scratch copy is no git repository: apply with patch
        sys.exit("patch does not apply")
    if "--nodemo" not in sys.argv:
        print("changed:", demo())
    if "--check" in sys.argv:
        names = [a for a in sys.argv[2:] if a.startswith("C")] or [prop]
        for n in names:
            r = sh("python3 %s/checks/%s.py" % (V, n.lower()), env=env, capture_output=True, text=True, cwd=V)
            print(n, "rc", r.returncode, (r.stdout + r.stderr)[-1500:])
finally:
    shutil.rmtree(sc, ignore_errors=True)
