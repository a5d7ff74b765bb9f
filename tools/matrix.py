#!/usr/bin/env python3
"""Tries planted bugs: for each seeded change, in a private mount of a scratch copy of /repo (mount
namespace: /repo itself is never touched), apply it, build, run the stable tests, the demonstration
and checks.  For development only; no registered check uses this.

  matrix.py [-j N] [--checks own|all|C01,C02] [SEED...]     results: /tmp/matrix.json
"""
import sys, os, json, subprocess, argparse, shutil, queue, threading, time

ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("--checks", default="own")
ap.add_argument("--out", default="/tmp/matrix.json")
ap.add_argument("seeds", nargs="*")
a = ap.parse_args()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
seeds = a.seeds or sorted(os.listdir(SEED))
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base.get("stable", base.get("passed", base.get("tests", []))))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]

SCRIPT = r'''
mount --bind "$W/repo" /repo && mount --bind "$W/evidence" /verif/evidence || exit 9
cd /repo; export VERIF_BUILD="$W/build" VERIF_SEED=1 VERIF_TIER=quick
R() { echo "$1=$2" >> "$W/out"; }
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash /verif/seeded/$S/demo.sh > "$W/demo0" 2>&1; R demo0 $?
git apply /verif/seeded/$S/patch.diff; R apply $?
bash /opt/vp/test.sh "$W/tests.json" > "$W/build.log" 2>&1; R test $?
timeout 300 bash /verif/seeded/$S/demo.sh > "$W/demo1" 2>&1; R demo1 $?
for c in $C; do timeout 900 python3 /verif/run.py $c > "$W/check.$c" 2>&1; R $c $?; done
git checkout -q -- .
'''


def one(s, w):
    meta = json.load(open(f"{SEED}/{s}/meta.json"))
    cs = {"own": [meta["property"]], "all": ids}.get(a.checks) or a.checks.split(",")
    if os.path.exists(w + "/out"):
        os.unlink(w + "/out")
    t0 = time.time()
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT], env=dict(os.environ, W=w, S=s, C=" ".join(cs)))
    out = dict(l.strip().split("=") for l in open(w + "/out"))
    try:
        t = json.load(open(w + "/tests.json"))
        failed = sorted(x for x in stable if x not in t["passed"])
    except Exception as e:
        failed = [str(e)]
    res = {"property": meta["property"], "ok": out.get("demo0") == "0" and out.get("apply") == "0" and out.get("demo1") not in ("0", "124") and not failed,
           "failed_tests": failed, "raw": out}
    res["caught"] = [c for c in cs if out.get(c) == "1" and f"VIOLATION property={c}" in open(f"{w}/check.{c}").read()]
    res["odd"] = [c for c in cs if out.get(c) not in ("0", "1")]
    print(s, meta["property"], "counts" if res["ok"] else "DOES-NOT-COUNT %s %s" % (out, failed),
          "caught by " + " ".join(res["caught"]) if res["caught"] else "MISSED", "odd " + str(res["odd"]) if res["odd"] else "",
          "%.0fs" % (time.time() - t0), flush=True)
    return res


q = queue.Queue()
for s in seeds:
    q.put(s)
results = {}
if os.path.exists(a.out):
    results = json.load(open(a.out))


def worker(k):
    w = f"/tmp/matrix.{k}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/evidence"); os.makedirs(w + "/build")
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    while True:
        try:
            s = q.get_nowait()
        except queue.Empty:
            break
        try:
            results[s] = one(s, w)
        except Exception as e:
            print(s, "ERROR", e, flush=True)
    shutil.rmtree(w, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]
[t.join() for t in ts]
json.dump(results, open(a.out, "w"), indent=1)
