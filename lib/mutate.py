#!/usr/bin/env python3
"""Development aid: measures a check with mechanical mutants of the code it is about.

usage: mutate.py <property> <n> <seed> <file>[:func,func...] ...     files relative to /repo/src
Each mutant is a one-token or one-statement change in a scratch copy; prints one line per mutant.
Nothing in /repo or /verif is touched.
"""
import sys, os, re, random, subprocess, shutil, threading, queue
REPO = os.environ.get("MUT_REPO", "/repo")
W = int(os.environ.get("MUT_WORKERS", "4"))
CASES = os.environ.get("MUT_CASES")

def functions(text):
    """(name, first line, last line) of top-level functions, with line numbers from 0"""
    lines = text.split("\n"); out = []; i = 0
    while i < len(lines):
        m = re.match(r"^(?:[a-zA-Z_][\w \*]*?[ \*])?(\w+)\(", lines[i])
        if m and not lines[i].rstrip().endswith(";"):
            j = i
            while j < len(lines) and not lines[j].startswith("{") and not lines[j].rstrip().endswith(";") and j - i < 12: j += 1
            if j < len(lines) and lines[j].startswith("{"):
                k = j
                while k < len(lines) and not lines[k].startswith("}"): k += 1
                out.append((m.group(1), j + 1, k)); i = k
        i += 1
    return out

SKIP = re.compile(r"PGOTO|printf|FUNC_|LOG_|fflush|^\s*//|^\s*\*|^\s*/\*|ret_value|timing|elapsed|gettimeofday|^\s*#|PDC_malloc_usage|assert|\bfree\(|HG_Destroy|HG_Free")
def mute(text):
    """lines of comments and messages"""
    keep = set()
    for m in re.finditer(r"/\*.*?\*/|\b(?:printf|PGOTO_ERROR|fprintf|LOG_\w+)\s*\((?:[^;\"]|\"(?:[^\"\\\\]|\\\\.)*\")*;", text, re.S):
        a = text.count("\n", 0, m.start()); b = text.count("\n", 0, m.end())
        keep.update(range(a, b + 1))
    return keep

def mutants(line):
    r = []
    if SKIP.search(line) or not line.strip(): return r
    body = line
    def sub(pat, rep, what):
        for m in re.finditer(pat, body):
            r.append((body[:m.start()] + (rep(m) if callable(rep) else rep) + body[m.end():], what))
    sub(r"(?<![<>=\-])<(?![<=])(?!\w+[.]h)(?=\s)", "<=", "< to <=")
    sub(r"<=", "<", "<= to <")
    sub(r"(?<![<>=\-])>(?![>=])(?=\s)", ">=", "> to >=")
    sub(r">=", ">", ">= to >")
    sub(r"==", "!=", "== to !=")
    sub(r"!=", "==", "!= to ==")
    sub(r"&&", "||", "&& to ||")
    sub(r"\|\|", "&&", "|| to &&")
    sub(r" \+ 1\b", "", "drop + 1")
    sub(r" - 1\b", "", "drop - 1")
    sub(r"(?<=[\w\])]) \+ (?=[\w(])", " - ", "+ to -")
    sub(r"(?<=[\w\])]) - (?=[\w(])", " + ", "- to +")
    sub(r" \+= ", " = ", "+= to =")
    sub(r"\[0\]", "[1]", "[0] to [1]")
    sub(r"\[1\]", "[0]", "[1] to [0]")
    sub(r"\[2\]", "[1]", "[2] to [1]")
    sub(r"\bbreak;", "continue;", "break to continue")
    sub(r"\bcontinue;", "break;", "continue to break")
    s = body.strip()
    if re.match(r"^[\w\->.\[\]\*\(\) ]+\s*(=|\+=|-=|\|=)\s*[^;]+;$", s) and not re.match(r"^(const )?(struct )?\w+( \*|\s+\*?)\w+\s*=", s) or re.match(r"^\w+\(.*\);$", s) or re.match(r"^[\w\->.\[\]]+(\+\+|--);$", s):
        if not s.startswith("return") and "alloc" not in s:
            r.append((re.match(r"\s*", body).group(0) + ";", "drop statement"))
    return r

def main():
    prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    cand = []
    for a in sys.argv[4:]:
        f, _, fs = a.partition(":")
        names = [re.compile(x + "$") for x in fs.split(",")] if fs else None
        t = open(REPO + "/src/" + f).read()
        L = t.split("\n")
        dead = mute(t)
        for name, b, e in functions(t):
            if names and not any(x.match(name) for x in names): continue
            for i in range(b, e):
                for new, what in ([] if i in dead else mutants(L[i])): cand.append((f, i, new, what, name))
    random.Random(seed).shuffle(cand)
    # at most one mutant of a kind per line
    seen, todo = set(), []
    for c in cand:
        if (c[0], c[1]) in seen: continue
        seen.add((c[0], c[1])); todo.append(c)
        if len(todo) == n: break
    print("%d candidates, %d chosen" % (len(cand), len(todo)), flush=True)


    q = queue.Queue(); tot = {"killed": 0, "survived": 0, "broken": 0}
    for x in enumerate(todo): q.put(x)
    lock = threading.Lock()
    def work(w):
        d = os.environ.get("MUT_DIR", "/tmp/mut"); repo, build = d + "/repo%d" % w, d + "/build%d" % w
        if not os.path.exists(repo): shutil.copytree(REPO, repo, symlinks=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=build, PBT_WORKERS=str(max(1, 8 // W)), PBT_SHRINK="0", VERIF_JOBS=str(max(1, 8 // W)), VERIF_SEED=os.environ.get("VERIF_SEED","1"))
        if CASES: env["PBT_CASES"] = CASES
        subprocess.run(["rsync", "-a", "--delete", REPO + "/src/", repo + "/src/"]) if shutil.which("rsync") else (shutil.rmtree(repo + "/src"), shutil.copytree(REPO + "/src", repo + "/src", symlinks=True))
        while True:
            try: k, (f, i, new, what, name) = q.get_nowait()
            except queue.Empty: return
            p = repo + "/src/" + f
            orig = open(REPO + "/src/" + f).read()
            L = orig.split("\n"); old = L[i]; L[i] = new
            open(p, "w").write("\n".join(L))
            try:
                r = subprocess.run([os.environ.get("MUT_VERIF", "/verif") + "/check", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
                out = r.stdout
                res = "killed" if "VIOLATION" in out else "survived" if r.returncode == 0 else "broken"
                m = re.search(r"--- failure ---\n(.*)", out)
                why = m.group(1)[:90] if m else "" if res == "survived" else out[-150:].replace("\n", " ")
            except subprocess.TimeoutExpired:
                res, why = "killed", "timeout"
            open(p, "w").write(orig)
            with lock:
                tot[res] += 1
                print("%s %s:%d %s [%s] | %s -> %s | %s" % (res.upper() if res != "killed" else res, os.path.basename(f), i + 1, name, what, old.strip()[:80], new.strip()[:80], why), flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(prop, tot)
main()
