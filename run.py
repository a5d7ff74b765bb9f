#!/usr/bin/env python3
"""Builds and runs the model-checking harness of one property against /repo's current working tree.

  run.py ID [--tier quick|thorough] [--replay FILE] [--only FAMILY]
  run.py --setup          compiles everything once (cache in /verif/build, git-ignored)
  run.py --list

Exit: 0 held on everything explored, 1 + "VIOLATION property=ID replay=PATH", anything else: error of the check.
"""
import sys, os, json, hashlib, subprocess, threading, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")       # only for experiments; the registered commands use /repo
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-fno-rtti", "-g1", "-w", "-fno-omit-frame-pointer",
         "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE", "-I", os.path.join(REPO, "src"), "-I", os.path.join(HERE, "engine"),
         "-I", HERE]
JOBS = max(2, os.cpu_count() or 2)

sys.path.insert(0, HERE)
from checks import CHECKS                             # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "engine"), os.path.join(REPO, "main")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".cpp"):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(read(p))
    return h.hexdigest()


class CompileError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CompileError(" ".join(cmd) + "\n" + r.stdout[-6000:])


def compile_obj(src, hh, extra=(), redefine_main=None):
    key = sha(read(src), src, hh, " ".join(FLAGS), " ".join(extra), redefine_main and redefine_main + " alone" or "")
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp.o" % os.getpid()
        sh([CXX, *FLAGS, *extra, "-c", src, "-o", tmp])
        if redefine_main:
            # nothing but main is seen by the other tools: they may have functions and classes of the same name
            sh(["ld", "-r", "--force-group-allocation", tmp, "-o", tmp + ".r"])
            sh(["objcopy", "--redefine-sym", "main=" + redefine_main, "--keep-global-symbol=" + redefine_main, tmp + ".r"])
            os.replace(tmp + ".r", tmp)
        os.replace(tmp, obj)
    return obj


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "ppocr", "**", "*.cpp"), recursive=True))


def build(pid):
    c = CHECKS[pid]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hh = headers_hash()
    with ThreadPoolExecutor(JOBS) as ex:
        futs = []
        har = os.path.join(HERE, "harness", c["harness"])
        defs = ["-D" + d for d in c.get("defines", [])]
        futs.append(ex.submit(compile_obj, har, hh, tuple(defs)))
        for m, sym in c.get("mains", []):
            futs.append(ex.submit(compile_obj, os.path.join(REPO, "main", m), hh, (), sym))
        nmain = len(futs)
        def lib_obj(s):
            try:
                return compile_obj(s, hh)
            except CompileError as e:      # files nobody builds do not compile; a needed one fails the link
                return e
        lib = [ex.submit(lib_obj, s) for s in lib_sources()]
        objs = [f.result() for f in futs]
        lobjs = [f.result() for f in lib]
    broken = [e for e in lobjs if isinstance(e, CompileError)]
    lobjs = [o for o in lobjs if not isinstance(o, CompileError)]
    key = sha(pid, *objs, *lobjs, " ".join(c.get("link", [])))
    exe = os.path.join(BUILD, "bin", pid + "-" + key)
    if not os.path.exists(exe):
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        ar = os.path.join(BUILD, "obj", "lib-%s-%d.a" % (key, os.getpid()))
        sh(["ar", "crs", ar, *lobjs])
        tmp = exe + ".%d.tmp" % os.getpid()
        try:
            sh([CXX, "-fsanitize=address", *objs, ar, "-o", tmp, *c.get("link", []), "-lpthread"])
        except CompileError as e:
            raise CompileError("\n".join(str(x) for x in [e, *broken]))
        os.replace(tmp, exe)
        os.unlink(ar)
    return exe


def prune():
    """Keeps the cache small: drops what was not used for long when there is a lot of it."""
    for sub, keep in (("obj", 600), ("bin", 80)):
        fs = glob.glob(os.path.join(BUILD, sub, "*"))
        if len(fs) > keep:
            fs.sort(key=os.path.getmtime)
            for f in fs[:len(fs) - keep]:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def known_listed():
    """[(property, id, text)] of the findings listed in known-findings.txt; 'fixed:' lines suppress nothing."""
    out = []
    for l in open(os.path.join(HERE, "known-findings.txt"), encoding="utf-8"):
        l = l.strip()
        if l.startswith("finding:"):
            f = dict(x.split("=", 1) for x in l[len("finding:"):].split(None, 2)[:2])
            out.append((f["property"], f["id"], l[len("finding:"):].split(None, 2)[2]))
    return out


def run_filtered(cmd, env, cwd, lines=300, width=600):
    """Run a harness; what it writes on its error output is passed on with long lines cut and at most so many of them."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stderr=subprocess.PIPE)

    def forward():
        n = 0
        for raw in iter(lambda: p.stderr.readline(1 << 20), b""):
            n += 1
            if n <= lines:
                text = raw.decode("utf-8", "replace").rstrip("\n")
                print(text[:width] + (" [...]" if len(text) > width else ""), file=sys.stderr, flush=True)
    t = threading.Thread(target=forward, daemon=True)
    t.start()
    p.wait()
    t.join(5)
    return p


def run(pid, tier, replay=None, only=None):
    t0 = time.time()
    try:
        exe = build(pid)
    except CompileError as e:
        print("ERROR: cannot build the harness of %s:\n%s" % (pid, e), file=sys.stderr)
        return 3
    prune()
    tbuild = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
                           "free_fill_byte=221:max_free_fill_size=4096:allocator_may_return_null=0:max_allocation_size_mb=5000:"
                           "hard_rss_limit_mb=3500:detect_stack_use_after_return=1:quarantine_size_mb=4:handle_abort=1:"
                           "thread_local_quarantine_size_kb=256")
    env["VERIF_REPO"] = REPO
    env["LC_ALL"] = "C"
    env["VERIF_TIER"] = tier
    if replay:
        return subprocess.run([exe, "--replay", replay], env=env).returncode
    outdir = os.path.join(BUILD, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, "result.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--out", out, "--replay-dir", outdir, "--tier", tier, "--workers", str(max(2, min(16, JOBS)))]
    if only:
        cmd += ["--only", only]
    scratch = "/dev/shm/ppocr-mc-%d" % os.getpid()
    os.makedirs(scratch, exist_ok=True)
    env["VERIF_SCRATCH"] = scratch
    try:
        r = run_filtered(cmd, env, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("ERROR: harness of %s ended with %d" % (pid, r.returncode), file=sys.stderr)
        return 3
    res = json.load(open(out, encoding="utf-8", errors="replace"))
    listed = {(p, i): t for p, i, t in known_listed()}
    violations = 1 if res["violation"] else 0
    rc = 0
    for k in res["known"]:
        if (pid, k["id"]) in listed:
            print("KNOWN-FINDING: property=%s %s [%d executions]" % (pid, listed[(pid, k["id"])], k["count"]))
        else:
            print("unlisted finding %s: %s" % (k["id"], k["text"]))
            path = os.path.join(outdir, "unlisted-%s.txt" % k["id"])
            with open(path, "w") as f:
                f.write(k["text"] + "\n")
            print("VIOLATION property=%s replay=%s" % (pid, path))
            violations += 1
            rc = 1
    fams = res["families"]
    samples = []
    for f in fams:
        for s in f.pop("samples"):
            samples.append("[%s] %s" % (f["family"], s))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sum(f["states"] for f in fams),
            "transitions": sum(f["transitions"] for f in fams),
            "traces_validated_against_impl": sum(f["executions"] for f in fams),
            "distinct_outcomes": sum(f["distinct_outcomes"] for f in fams),
            "samples": samples[:40],
            "exhaustive": all(f["exhaustive"] for f in fams) and not violations,
            "families": fams,
            "explanation": "Every execution runs the real code of /repo (compiled from the working tree) and is compared with the "
                           "reference model; states are distinct model states or inputs reached, transitions are compared calls of the "
                           "real code, traces are complete executions. All choices within each family's stated bounds are enumerated.",
            "known_findings": res["known"],
        },
        "assumptions": CHECKS[pid].get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "build_s": round(tbuild, 3),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    c = ev["coverage"]
    print("%s: %d executions, %d states, %d transitions, %d outcomes, build %.1fs, total %.1fs" % (
        pid, c["traces_validated_against_impl"], c["states"], c["transitions"], c["distinct_outcomes"], tbuild, ev["wall_s"]))
    if res["violation"]:
        print(res["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (pid, res["violation"]))
        rc = 1
    return rc


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = only = None
    ids = []
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--only":
            only = a.pop(0)
        elif x == "--list":
            print("\n".join(sorted(CHECKS))); return 0
        elif x == "--setup":
            for i in sorted(CHECKS):
                t = time.time()
                build(i)
                print("built", i, "%.1fs" % (time.time() - t), flush=True)
            return 0
        elif x == "all":
            ids += sorted(CHECKS)
        else:
            ids.append(x)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    worst = 0
    for i in ids:
        rc = run(i, tier, replay, only)
        if len(ids) > 1:
            print("%s -> %d" % (i, rc), flush=True)
        worst = max(worst, rc)
    return worst


if __name__ == "__main__":
    sys.exit(main())
