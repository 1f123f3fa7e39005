#!/usr/bin/env python3
"""run.py DIR [FILE-PATTERN]: runs the mutants that mutgen wrote to DIR: those that build and pass the stable tests
are given to the quick checks of the properties that their file is about. Results go to DIR/results.jsonl."""
import json, os, subprocess, sys, re, tempfile, shutil, concurrent.futures as cf
D = sys.argv[1]; pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else "."); J = int(os.environ.get("JOBS", "8"))
CASES = os.environ.get("CASES", "1500")
H = "/verif/harness"
env = dict(os.environ, GOCACHE=D + "/cache", GOFLAGS="-mod=mod", GOSUMDB="off", GOPROXY="off", VMON_CASES=CASES, VERIF_DIR=D + "/verif", GOMAXPROCS="2")
os.makedirs(D + "/verif", exist_ok=True); shutil.copy("/verif/known_findings.json", D + "/verif/")
WIRE = "M01 M03 M04 M02 M05 M07 M06 D08 M08".split()
B = "B01 B02 B03 B04 B05 B06 B07 E02 M07 B08".split()
DL = "D01 D02 D03 D04 D05 D06 D07 D08 D09 D10 D11 E01 M07 D12".split()
A = "A05 A06 A02 A01 A03 A04 A07 A08 M08 C01".split()
S = "S01 S02 S03 S04 E01 E02 S05".split()
MAP = [("messages/", WIRE + ["A01", "A02", "E01", "E02", "S01"]), ("serializers/payload", ["M06", "D08", "M08", "M07", "C01"]), ("serializers/", WIRE + ["T01", "A01", "C01"]),
       ("broker", B + ["B09", "E04"]), ("dealer", DL + ["D13", "E04"]), ("session", S + ["E04"]), ("acceptor", A + ["E03"]), ("joiner", A + ["E03"]), ("auth/", A), ("idgen", ["I01", "I02", "B04", "A08"]),
       ("types", ["A01", "M01", "C01"] + B + DL), ("util", ["M04", "M05", "M02", "M01", "A03", "A06", "D06", "A01", "B04", "B06"]), ("internal", ["A08", "I02", "S01"] + S), ("transports", ["T01", "T02", "M08", "C01"])]
RACE = "A08 I01 I02 B09 D13 S04 C01 E04".split()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
pk = [p for p in subprocess.run(["go", "list", "-e", "./..."], cwd="/repo", env=env, capture_output=True, text=True).stdout.split() if "/tests/interop/" not in p]

def one(m):
    t = tempfile.mkdtemp(dir=D)
    try:
        n = m["N"]; src = f"{D}/{n:04d}.go"
        ov = t + "/ov.json"; json.dump({"Replace": {"/repo/" + m["File"]: src}}, open(ov, "w"))
        r = subprocess.run(["go", "test", "-overlay", ov, "-json", "-vet=off", "-count=1", "-timeout", "60s"] + pk, cwd="/repo", env=env, capture_output=True, text=True, timeout=300)
        ok = set()
        built = "build failed" not in r.stdout and "[build failed]" not in r.stderr
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "build-fail": built = False
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        if not built: return "nobuild", ""
        if stable - ok: return "tests", ""
        ids = next(v for k, v in MAP if m["File"].startswith(k))
        if os.environ.get("NORACE") and not m["Desc"].startswith("LOCKS"): ids = [i for i in ids if i not in RACE]
        if m["Desc"].startswith("LOCKS"): ids = [i for i in RACE]
        res = []
        vm = vmr = None
        for i in ids:
            if i in RACE:
                if not vmr:
                    vmr = t + "/vmonr"
                    # the mutated sources as a tree for noisegen
                    tree = t + "/repo"; shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(".git")); shutil.copy(src, tree + "/" + m["File"])
                    gm = open(H + "/go.mod").read().replace("=> /repo", "=> " + tree); open(t + "/go.mod", "w").write(gm); shutil.copy(H + "/go.sum", t + "/go.sum")
                    os.makedirs(t + "/noise")
                    b = subprocess.run(f"go run ./noisegen -repo {tree} -out {t}/noise >/dev/null && go build -modfile={t}/go.mod -race -tags vmonnoise -overlay {t}/noise/overlay.json -o {vmr} ./vmon", shell=True, cwd=H, env=env, capture_output=True, text=True)
                    if b.returncode: return "racebuild", b.stderr[-300:]
                bin = vmr
            else:
                if not vm:
                    vm = t + "/vmon"
                    b = subprocess.run(["go", "build", "-overlay", ov, "-o", vm, "./vmon"], cwd=H, env=env, capture_output=True, text=True)
                    if b.returncode: return "vmonbuild", b.stderr[-300:]
                bin = vm
            try:
                r = subprocess.run([bin, "-prop", i, "-workers", "2"], env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                res.append(i + ":timeout"); continue
            if r.returncode == 1: return "killed", i + " " + r.stdout.split("\n")[0][:160]
            if r.returncode != 0 and "too little observed" not in r.stdout: res.append(i + ":" + r.stdout.split("\n")[0][:100])
        return "SURVIVED", " ".join(res)
    except Exception as e:
        return "error", repr(e)[:200]
    finally:
        shutil.rmtree(t, ignore_errors=True)

done = set()
if os.path.exists(D + "/results.jsonl"): done = {json.loads(l)["N"] for l in open(D + "/results.jsonl")}
ms = [m for m in json.load(open(D + "/list.json")) if m["N"] not in done and pat.search(m["File"])]
out = open(D + "/results.jsonl", "a")
import threading
lock = threading.Lock(); k = 0
def go(m):
    global k
    v, d = one(m)
    with lock:
        out.write(json.dumps(dict(m, verdict=v, detail=d)) + "\n"); out.flush(); k += 1
        if k % 200 == 0:
            s = shutil.disk_usage("/tmp")
            if s.free < 20 << 30: subprocess.run(["go", "clean", "-cache"], env=env)
with cf.ThreadPoolExecutor(J) as ex: list(ex.map(go, ms))
