"""python3 tools/mkseed.py SPEC.py : SPEC defines id, property, edits=[(file, old, new)], demo, needs, breaks, files={}"""
import json, os, subprocess, sys, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wt = "/tmp/seed-wt"
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)
subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", wt, "HEAD"], check=True, capture_output=True)
try:
    for f, old, new in ns["edits"]:
        p = os.path.join(wt, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, check=True).stdout
    out = os.path.join(V, "seeded", ns["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "wb").write(d)
    open(os.path.join(out, "demo.sh"), "w").write(ns["demo"])
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    for n, t in ns.get("files", {}).items():
        open(os.path.join(out, n), "w").write(t)
    json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    rc = []
    for cwd, env in (("/repo", {}), (wt, {})):
        r = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)
        rc.append(r.returncode)
        print("---", cwd, r.returncode, (r.stdout + r.stderr)[-600:])
    print(ns["id"], "demo OK" if rc[0] == 0 and rc[1] != 0 else "DEMO BAD")
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)
    shutil.rmtree(wt, ignore_errors=True)
