"""mk.py: make seeded/<id> from a description file: dict(id, property, needs, breaks, edits=[(file, old, new)], main=..., gen=...)."""
import json, os, shutil, subprocess, sys
V = "/verif"
REPO = os.environ.get("R", "/repo")
def make(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkwt"
    subprocess.run(["git", "-C", REPO, "worktree", "prune"])
    if os.path.exists(w):
        subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", w])
    subprocess.run(["git", "-C", REPO, "worktree", "add", "--detach", "-q", w, "HEAD"], check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True).stdout
    subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", w])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(V, "lib/seedkit/demo.sh"), d)
    shutil.copy(os.path.join(V, "harness/gen/Cargo.lock"), d)
    if "sh" in s:
        # a demonstration of its own instead of main.rs and gen.rs
        t = open(os.path.join(V, "lib/seedkit/demo.sh")).read().split("if [ -f")[0]
        open(os.path.join(d, "demo.sh"), "w").write(t.replace("crate() {", "crate() {") + s["sh"])
    for k in ("main", "gen"):
        if k in s:
            open(os.path.join(d, k + ".rs"), "w").write(s[k])
exec(open(sys.argv[1]).read())
for s in SEEDS:
    if len(sys.argv) < 3 or s["id"] in sys.argv[2:]:
        make(s)
