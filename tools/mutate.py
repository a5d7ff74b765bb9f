#!/usr/bin/env python3
"""Mutation testing of the checks (development only; no registered check uses it): every operator mutant of the given
source files, one at a time, in a scratch copy of /repo; a mutant is killed by the first check of its file that reports it.

  mutate.py [-j N] [--out FILE] [--list] [FILE...]        results: one JSON line per mutant in /tmp/mutate.jsonl
"""
import sys, os, re, json, subprocess, argparse, shutil, threading, queue, time

ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("--out", default="/tmp/mutate.jsonl")
ap.add_argument("--per-line", type=int, default=4)
ap.add_argument("--list", action="store_true")
ap.add_argument("files", nargs="*")
a = ap.parse_args()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FEAT = {"hbar": "C08", "dzdensity": "C08", "density": "C08", "proportionality.": "C08", "gravity": "C07", "direction": "C07", "alternations": "C09", "zone": "C10", "top_bottom": "C09", "context": "C12"}
MAP = [  # path fragment -> checks, most likely first
    ("main/write_glyphs", "C17 C36 C33 C35"), ("main/normalize_glyphs", "C16 C37 C36 C33 C35 C17"), ("main/write_datas", "C17 C37 C36 C33 C35 C30"), ("main/make_trie", "C19 C36 C33 C18"),
    ("main/show_glyphs", "C34 C36 C33"), ("main/ocr2_extract", "C31 C24 C36 C33 C30"), ("learning", "C35"),
    ("image/image_from_file", "C02 C01 C03"), ("image/image_from_string", "C06"), ("image/", "C06 C34 C04 C12 C07"), ("box_char/", "C05 C04"),
    ("relationship", "C11 C22"), ("proportionality_zone", "C10 C12 C11"), ("alternations", "C09 C11"), ("count_zone", "C10 C12"),
    ("utils/diagonal", "C07 C12"), ("utils/horizontal_zone", "C08 C10"), ("utils/horizontal", "C07 C12"), ("strategies/zone", "C10"), ("strategies/utils/context", "C12 C10"),
    ("gravity", "C07 C11"), ("direction", "C07 C11"), ("strategies/", "C08 C09 C10 C07 C11 C12"),
    ("loader2/datas_loader", "C13 C12 C30 C11"), ("loader2/glyphs_loader", "C14 C16 C30"), ("loader2/image_io", "C14 C30 C17 C16"), ("defined_loader", "C13 C30 C11 C22 C12"),
    ("ocr2/glyphs", "C15 C14 C30"), ("ocr2/data_indexes_by_words", "C23 C22"), ("ocr2/views_index", "C23 C24"), ("filter_by_lines", "C25"), ("filter_by_font", "C26"),
    ("word_lines", "C29 C30 C25"), ("words_infos", "C29 C25"), ("enum_io", "C29 C30"), ("disambiguous_with_dict", "C27 C31"), ("replacement", "C28"),
    ("ocr2/cache", "C24 C31"), ("ocr2/image_context", "C24 C31 C12"), ("ocr2/", "C22 C24 C23 C31"),
    ("spell/dictionary", "C18 C19 C21 C30 C20"), ("spell/", "C21 C18 C20 C27"), ("utf", "C20 C18 C21"), ("trie", "C32 C18 C30 C19"), ("reindex", "C32 C22"),
    ("image_compare", "C06 C16"), ("read_file", "C30 C33 C14"), ("range_iterator", "C23 C22"), ("integer_iterator", "C18 C32"), ("make_unique", "C06"),
]
SKIP = ("horizontal_zone.hpp", "enum_io", "extract_text6", "extract_text8", "tree.cpp", "show_stats", "stat_def", "graphic_datas", "learning2", "baseline", "normalize_learning", "main/box", "definitions", "almost_equal", "font2png", "make_unique", "range_iterator", "integer_iterator", "unique_sort")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" < ", " > "), (r" > ", " < "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" && ", " || "), (r" \|\| ", " && "), (r"\+= ", "-= "), (r"-= ", "+= "),
       (r"\(!", "("), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
       (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"\+\+", "--"), (r" << ", " >> "), (r" & ", " | "), (r" \| ", " & "), (r"\.width\(\)", ".height()"), (r"\.height\(\)", ".width()"),
       (r"(?<![\w.])(\d+)(?![\w.])", "+1"), (r"(?<![\w.])(\d+)(?![\w.])", "-1"), (r"\bif \((.*)\) \{$", "IF1"), (r"\bif \((.*)\) \{$", "IF0"), (r"\bunsigned (\w+ =|\w+;)", "NARROW"), (r"\bstd::size_t (\w+ =)", "NARROW2"),
       (r"sort\(", "(void)sizeof("), (r"static_cast<unsigned>", "static_cast<unsigned char>"), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"), (r"\bcbegin\(\)", "cend()-1"), (r"emplace_back", "EMPLACE_TWICE"), (r"^\s+[\w.\->\[\]:*+ ]+ ?(=|\+=|-=|\(|\+\+|--|<<).*;$", "DELETE")]


def mutants(path):
    lines = open(os.path.join(REPO, path)).read().split("\n")
    incomment = False; started = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith(("//", "#", "template", "using ", "namespace", "static_assert", "friend", "struct ", "class ")) or not s: continue
        if "std::cerr" in s or s.startswith("assert("): continue
        code = re.sub(r"//.*", "", l)
        seen = set(); found = []
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if rep in ("+1", "-1"):
                    v = int(m.group(1))
                    if rep == "-1" and v == 0: continue
                    new = code[:m.start()] + str(v + int(rep)) + code[m.end():]
                elif rep == "IF1": new = code[:m.start(1)] + "true" + code[m.end(1):]
                elif rep == "IF0": new = code[:m.start(1)] + "false" + code[m.end(1):]
                elif rep == "NARROW": new = code[:m.start()] + "unsigned char " + code[m.start(1):]
                elif rep == "NARROW2": new = code[:m.start()] + "unsigned short " + code[m.start(1):]
                elif rep == "EMPLACE_TWICE": continue
                elif rep == "DELETE":
                    if re.match(r"\s+(return|throw|auto|const|unsigned|int|std::|using|case|else|bool|char|void|for|while|Box|Bounds|Image)\b", code) and not re.match(r"\s+std::(sort|cout|cerr|reverse|swap|fill|copy|for_each|memcpy)", code): continue
                    new = re.match(r"\s*", code).group() + ";"
                else: new = code[:m.start()] + rep + code[m.end():]
                if new == code or new in seen: continue
                seen.add(new)
                found.append((n, l, new, pat + " -> " + rep))
        yield from (found if len(found) <= a.per_line else [found[i * len(found) // a.per_line] for i in range(a.per_line)])


def checks_of(path):
    for k, v in MAP:
        if k in path: return v.split()
    return None


def files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "src", "main"], capture_output=True, text=True).stdout.split()
    return [f for f in out if f.endswith((".cpp", ".hpp")) and not any(s in f for s in SKIP)]


fs = a.files or files()
todo = []
for f in fs:
    c = checks_of(f)
    if not c: print("no checks for", f, file=sys.stderr); continue
    for n, old, new, op in mutants(f): todo.append((f, n, old, new, op, c))
if a.list:
    for f in fs: print(sum(t[0] == f for t in todo), f, checks_of(f))
    print(len(todo)); sys.exit()
done = set()
if os.path.exists(a.out):
    for l in open(a.out): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
todo = [t for t in todo if (t[0], t[1] + 1, t[3]) not in done]
print(len(todo), "mutants", flush=True)
lock = threading.Lock(); q = queue.Queue()
for t in todo: q.put(t)


def worker(k):
    w = f"/tmp/mut/w{k}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/ev"); r = w + "/repo"; os.makedirs(r)
    for d in ("src", "main", "resources"): shutil.copytree(f"{REPO}/{d}", f"{r}/{d}")
    shutil.copy(f"{REPO}/learning", f"{r}/learning")
    env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=w + "/build", VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try: f, n, old, new, op, cs = q.get_nowait()
        except queue.Empty: break
        text = open(f"{REPO}/{f}").read().split("\n"); keep = "\n".join(text)
        if text[n] != old: continue
        text[n] = new; open(f"{r}/{f}", "w").write("\n".join(text)); t0 = time.time()
        verdict = "SURVIVED"; by = None
        try:
            x = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-fno-rtti", "-I", r + "/src", "-x", "c++", f"{r}/{f}"], capture_output=True)
            if x.returncode: verdict = "nocompile"
            else:
                for c in cs:
                    y = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {w}/ev /verif/evidence && exec timeout 600 python3 {HERE}/run.py {c}"], env=env, capture_output=True, text=True, errors="replace")
                    if y.returncode == 1 and f"VIOLATION property={c}" in y.stdout: verdict = "killed"; by = c; break
                    if "cannot build" in y.stdout + y.stderr: verdict = "nocompile"; by = c; break
                    if y.returncode != 0: verdict = "odd%d" % y.returncode; by = c; break
        finally:
            open(f"{r}/{f}", "w").write(keep)
        with lock:
            open(a.out, "a").write(json.dumps(dict(file=f, line=n + 1, op=op, old=old, new=new, verdict=verdict, by=by, t=round(time.time() - t0, 1))) + "\n")
            if verdict not in ("killed", "nocompile"): print(verdict, by or "", f"{f}:{n+1}", "\n  -", old.strip(), "\n  +", new.strip(), flush=True)
        # keep the object cache small
        o = w + "/build/obj"
        if os.path.isdir(o) and sum(os.path.getsize(os.path.join(o, x)) for x in os.listdir(o)) > 3e9: shutil.rmtree(o)
    shutil.rmtree(w, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
for t in ts: t.start()
for t in ts: t.join()
print("finished")
