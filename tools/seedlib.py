"""seed(id, prop, pkg, edits, demo, needs, breaks): writes /verif/seeded/<id>; edits are (file, old, new)."""
import os, subprocess, shutil, json, tempfile
def seed(id, prop, pkg, edits, demo, needs, breaks):
    d = "/verif/seeded/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = w + "/r/" + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy("/verif/tools/demo/demo.sh", d + "/demo.sh")
    open(d + "/pkg", "w").write(pkg + "\n")
    open(d + "/demo_test.go.txt", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
