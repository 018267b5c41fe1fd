"""mkseed.py FILE.py: make planted bugs. FILE defines SEEDS: id -> dict(property, needs, breaks, edits=[(file, old, new)], demo=...)
The patch is taken from a scratch copy in /tmp/plant/repo; removed lines have to be lines of the original repository."""
import json, os, re, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant/repo"
BASE = "3c3d33e"
def git(*a):
    return subprocess.run(["git", "-C", S] + list(a), capture_output=True, text=True, check=True).stdout
git("checkout", "-q", "--", ".")
git("fetch", "-q", "/repo", "HEAD"); git("reset", "-q", "--hard", "FETCH_HEAD")
for sid, s in runpy.run_path(sys.argv[1])["SEEDS"].items():
    if len(sys.argv) > 2 and sid not in sys.argv[2:]:
        continue
    for f, old, new in s["edits"]:
        p = os.path.join(S, f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = git("diff")
    orig = False
    for f in {e[0] for e in s["edits"]}:
        blame = git("blame", "-s", "HEAD", "--", f).splitlines()
        for m in re.finditer(r"^@@ -(\d+)", git("diff", "-U0", "--", f), re.M):
            pass
        ln = None
        for line in git("diff", "-U0", "--", f).splitlines():
            m = re.match(r"^@@ -(\d+)", line)
            if m:
                ln = int(m.group(1))
            elif line.startswith("-") and not line.startswith("---"):
                o = blame[ln - 1].startswith("^" + BASE)
                orig |= o
                if not o:
                    print(sid, "removes a line that is not original:", line)
                ln += 1
    git("checkout", "-q", "--", ".")
    if not orig:
        print(sid, "NO ORIGINAL LINE CHANGED")
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + s["demo"].lstrip("\n"))
    for n, c in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(c)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
