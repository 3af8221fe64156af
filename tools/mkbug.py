"""mkbug.py SPEC.py - creates /verif/seeded/<id>/ from edits; checks that the patch applies, builds, passes the stable tests, and
that the demonstration passes without and fails with it, in a scratch copy (VERIF_SCRATCH, default /w/bugs)."""
import json, os, subprocess, sys, shutil
SC = os.environ.get("VERIF_SCRATCH", "/w/bugs")

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(id, prop, edits, demo, needs, breaks, files=None, verify=True):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(SC):
        os.makedirs(os.path.dirname(SC), exist_ok=True)
        sh(f"cp -a /repo {SC}")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    r = sh(f"cd {SC} && git fetch -q /repo HEAD && git checkout -q -f {head} && git clean -fdq")
    for f, old, new in edits:
        p = f"{SC}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", SC, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(demo)
    os.chmod(f"{d}/demo.sh", 0o755)
    for n, t in (files or {}).items():
        open(f"{d}/{n}", "w").write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    if verify:
        a = sh(f"cd {SC} && bash {d}/demo.sh")
        sh(f"cd {SC} && git checkout -q -f {head}")
        b = sh(f"cd {SC} && bash {d}/demo.sh")
        ok = a.returncode != 0 and b.returncode == 0
        print(id, "OK" if ok else "BAD", "with patch rc", a.returncode, "without rc", b.returncode)
        if not ok:
            print(a.stdout[-1500:], "\n-----\n", b.stdout[-1500:])
