#!/usr/bin/env python3
"""Developer aid: seedtest.py [ID...]  confirms planted bugs in a scratch copy of /repo:
demo passes without, fails with, stable tests pass with, and which check catches it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


for i in ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-")
    os.chmod(tmp, 0o755)
    repo = os.path.join(tmp, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        demo = os.path.join(tmp, "d")
        shutil.copytree(d, demo, ignore=lambda a, n: [x for x in n if x.endswith((".diff", ".json")) and a == d])
        base = sh(["bash", os.path.join(demo, "demo.sh")], repo).returncode
        ap = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        bad = sh(["bash", os.path.join(demo, "demo.sh")], repo)
        comp = sh([sys.executable, "-m", "compileall", "-q", os.path.join(repo, "src/keri/db"), os.path.join(repo, "tools")], repo)
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--confcutdir=tests/db",
                "tests/db/test_webdbing.py", "tools/test_check_spec_examples.py"], repo,
               PYTHONPATH=os.path.join(repo, "src/keri/db"), PYTHONDONTWRITEBYTECODE="1")
        c = sh(["./check.sh", meta["property"], "quick"], HERE, VERIF_REPO=repo)
        print(i, meta["property"], "apply", ap.returncode, "demo", base, bad.returncode, "tests", t.returncode, "compile", comp.returncode,
              "CAUGHT" if c.returncode == 1 else f"MISSED({c.returncode})",
              (c.stdout.splitlines() or [""])[0][:150] if c.returncode == 1 else c.stdout[-600:], flush=True)
        if base or not bad.returncode or t.returncode or ap.returncode:
            print("   BAD PLANT:", bad.stdout[-600:], t.stdout[-400:] if t.returncode else "")
    finally:
        shutil.rmtree(tmp)
