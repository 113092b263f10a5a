"""plant.py ID PROPERTY: reads edits from stdin as python: list of (file, old, new); writes seeded/ID/patch.diff
(works in a scratch copy of /repo's HEAD under /tmp, removed afterwards)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def plant(bid, prop, edits, needs, breaks, demo, demo_name="demo.py", env="python"):
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", d + "/w"])
        for f, old, new in edits:
            q = os.path.join(d, "w", f)
            s = open(q).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(q, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d + "/w", "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", d + "/w"])
        shutil.rmtree(d, ignore_errors=True)
    o = os.path.join(V, "seeded", bid)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    open(os.path.join(o, "demo.sh"), "w").write("#!/bin/bash\n. /opt/vp/harness/env.sh\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\ncd /repo\nexport PYTHONPATH=/repo/wx_factory:/repo\nexec timeout 240 %s \"$here/%s\"\n" % (env, demo_name))
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    open(os.path.join(o, demo_name), "w").write(demo)
