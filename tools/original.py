"""original.py TREE: the uncommitted change of TREE alters at least one line of the first commit, and no line of a later one."""
import re, subprocess, sys
t = sys.argv[1]
base = subprocess.run(["git", "-C", t, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
d = subprocess.run(["git", "-C", t, "diff", "-U0", "HEAD"], capture_output=True, text=True).stdout
f, orig, later = None, 0, []
for l in d.splitlines():
    if l.startswith("--- a/"): f = l[6:]
    m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
    if m:
        a, n = int(m[1]), int(m[2] or 1)
        for i in range(a, a + n):
            b = subprocess.run(["git", "-C", t, "blame", "-l", "-s", "-L", f"{i},{i}", "HEAD", "--", f], capture_output=True, text=True).stdout
            text = b.split(")", 1)[1].strip() if ")" in b else ""
            if b.lstrip("^")[:30] == base[:30] or base.startswith(b.lstrip("^").split()[0]): orig += 1
            elif text: later.append(f"{f}:{i}")
if not orig or later:
    print("original lines:", orig, "later lines:", later); sys.exit(1)
