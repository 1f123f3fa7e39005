"""make.py BATCH.py [BUG...]: (re)creates planted bugs. The batch calls S(id, property, needs, breaks, edits, demo, race).
edits: (file, old, new) triples applied to a worktree of /repo's HEAD; demo: the body of main() plus imports."""
import json, os, re, shutil, subprocess, sys
V = "/verif"; W = "/tmp/sw"
only = set(sys.argv[2:])
LIB = V + "/tools/seedlib"
GOFMT = "/opt/veriftools/go1.27.3/bin/gofmt"
if not os.path.exists(GOFMT): GOFMT = "gofmt"
DEMO = '''#!/bin/bash
# runs main.go, laid over the repository as a package of its own, against the tree in the working directory
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off
o=$(mktemp)
echo "{\\"Replace\\":{\\"$PWD/zz_demo/main.go\\":\\"$d/main.go\\",\\"$PWD/zz_demo/common.go\\":\\"$d/common.go\\"}}" > "$o"
timeout 280 go run %s-overlay "$o" ./zz_demo
s=$?
rm -f "$o"
exit $s
'''
made = []
def S(id, prop, needs, breaks, edits, demo, race=False):
    if only and id not in only: return
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    for f, old, new in edits:
        p = f"{W}/{f}"; s = open(p).read()
        if s.count(old) != 1: sys.exit(f"{id}: {f}: {s.count(old)} occurrences of {old!r}")
        open(p, "w").write(s.replace(old, new))
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    files = sorted({W + "/" + f for f, _, _ in edits})
    subprocess.run([GOFMT, "-w"] + files, check=True)
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    imps, body = [], []
    tops = []
    for part in demo.strip("\n").split("\n---\n"):
        if not body: body = [part]
        else: tops.append(part)
    src = "\n".join(body + tops)
    known = {"fmt": "fmt", "os": "os", "bytes": "bytes", "strings": "strings", "sync": "sync", "time": "time", "math": "math", "runtime": "runtime", "hmac": "crypto/hmac", "sha256": "crypto/sha256", "hex": "encoding/hex", "base64": "encoding/base64", "json": "encoding/json", "errors": "errors", "reflect": "reflect", "exec": "os/exec", "ed25519": "crypto/ed25519", "atomic": "sync/atomic", "rand": "math/rand", "strconv": "strconv", "sort": "sort", "unsafe": "unsafe"}
    std = [p for n, p in known.items() if re.search(rf"\b{n}\.[A-Z]", src)]
    mods = {"wampproto": "", "messages": "/messages", "serializers": "/serializers", "auth": "/auth", "transports": "/transports", "util": "/util", "internal": "/internal"}
    own = [f'"github.com/xconnio/wampproto-go{p}"' for n, p in mods.items() if re.search(rf"(?<!\.)\b{n}\.[A-Z]", src)]
    imp = "".join(f'\t"{p}"\n' for p in sorted(std)) + ("\n" if std and own else "") + "".join(f"\t{p}\n" for p in own)
    go = "package main\n\n" + (f"import (\n{imp})\n\n" if imp else "") + "func main() {\n" + body[0] + "\n}\n" + "".join("\n" + t + "\n" for t in tops)
    open(d + "/main.go", "w").write(go)
    subprocess.run([GOFMT, "-w", d + "/main.go"], check=True)
    shutil.copy(LIB + "/common.go", d + "/common.go")
    open(d + "/demo.sh", "w").write(DEMO % ("-race " if race else ""))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    made.append(id)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
print(" ".join(made))
