#!/usr/bin/env python3
"""Mutation campaign: random small changes to the library's sources, each run
against all checks with reduced case counts, to find what the checks miss.
Works in copies under SCRATCH; /repo is only read.

usage: mutate.py SCRATCH N SEED PARALLEL [FILE...]   appends to SCRATCH/log
MUTATE_KINDS=op,cap,... restricts the kinds of changes"""
import json, os, random, re, shutil, subprocess, sys, concurrent.futures as cf, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
QUICK = {"P01": 0, "P18": 0}
ORDER = {
    "read_fits.c": "P03 P01 P23 P04 P06 P25 P27 P28 P29 P05",
    "write_fits.c": "P01 P02 P23 P22 P29 P28",
    "alloc_fits.c": "P01 P05 P20", "free_fits.c": "P20 P05 P01", "chkmalloc.c": "P01 P20",
    "oifile.c": "P01 P17 P04 P19 P16 P03 P06 P29 P28 P20 P05",
    "oifilter.c": "P07 P08 P24 P10 P09 P30 P26", "oicheck.c": "P14 P15 P30", "oimerge.c": "P11 P12 P13 P30 P26", "oiiter.c": "P10 P09 P30 P26",
    "datemjd.c": "P18", "oifits-filter.c": "P21", "oifits-merge.c": "P21", "oifits-check.c": "P21", "oifits-upgrade.c": "P21",
}
ALL = ["P%02d" % i for i in range(1, 40)]
SWAPS = [("visamp", "visphi"), ("u1coord", "u2coord"), ("v1coord", "v2coord"), ("ucoord", "vcoord"), ("t3amp", "t3phi"), ("arrname", "insname"),
         ("insname", "corrname"), ("rvis", "ivis"), ("jxx", "jyy"), ("jxy", "jyx"), ("nwaveIn", "nwaveOut"), ("pIn", "pOut"), ("visList", "vis2List"),
         ("t3List", "fluxList"), ("numVis", "numVis2"), ("eff_wave", "eff_band"), ("abRad", "bcRad"), ("raep0", "decep0"), ("pmra", "pmdec"),
         ("mjd_obs", "mjd_end"), ("MIN", "MAX"), ("TINT", "TDOUBLE"), ("pInput", "pOutput"), ("accept_t3amp", "accept_t3phi"), ("veltyp", "veldef")]


def code_lines(text):
    """indices of lines which are neither comment nor preprocessor nor assertion"""
    out, inc = [], False
    for i, l in enumerate(text):
        s = l.strip()
        if inc:
            if "*/" in s: inc = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: inc = True
            continue
        if not s or s.startswith(("//", "#", "*", "}", "{")) or "assert" in s: continue
        if "errmark" in s or "sizeof(" in s or "find_oi_" in s or s.startswith("g_debug("): continue
        out.append(i)
    return out


def mutants(path):
    text = open(path).read().split("\n")
    res = []
    def add(i, new, kind):
        if new != text[i]: res.append((i, i + 1, [new], kind))
    for i in code_lines(text):
        l = text[i]
        body = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x00" * len(m.group(0)), l)
        body = re.sub(r"/\*.*?\*/", lambda m: "\x00" * len(m.group(0)), body)
        for m in re.finditer(r"(<=|>=|==|!=|&&|\|\||(?<![-<>=])[<>](?![<>=])|\s[-+]\s|\s[*/]\s|\+\+|--)", body):
            op = m.group(1)
            alt = {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["<="], ">": [">="], " + ": [" - "],
                   " - ": [" + "], " * ": [" / "], " / ": [" * "], "++": ["--"], "--": ["++"]}.get(op, [])
            for a in alt: add(i, l[:m.start(1)] + a + l[m.end(1):], "op")
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.])", body):
            add(i, l[:m.start(1)] + str(int(m.group(1)) + 1) + l[m.end(1):], "const")
            if int(m.group(1)) > 0: add(i, l[:m.start(1)] + str(int(m.group(1)) - 1) + l[m.end(1):], "const")
        for a, b in (("TRUE", "FALSE"), ("FALSE", "TRUE"), ("true", "false"), ("continue", "break"), ("break", "continue")):
            for m in re.finditer(r"\b%s\b" % a, body): add(i, l[:m.start()] + b + l[m.end():], "flip")
        for a, b in SWAPS + [(b, a) for a, b in SWAPS]:
            for m in re.finditer(re.escape(a), body): add(i, l[:m.start()] + b + l[m.end():], "swap")
        for m in re.finditer(r'"((?:\\.|[^"\\])+)"', l):
            s = m.group(1)
            add(i, l[:m.start(1)] + s[:-1] + ("Y" if s[-1] != "Y" else "X") + l[m.end(1):], "string")
        m = re.match(r"^(\s*)(if|while) \((.*)\)( \{)?$", l)
        if m and body.count("(") == body.count(")"): add(i, "%s%s (!(%s))%s" % (m.group(1), m.group(2), m.group(3), m.group(4) or ""), "negate")
        # what shows with large sizes, long strings or precise numbers only
        m = re.match(r"^(\s*for \([^;]*; \w+ < )([^;]+)(;.*)$", l)
        if m:
            for cap in (9, 32, 128): add(i, "%s((%s) > %d ? %d : (%s))%s" % (m.group(1), m.group(2), cap, cap, m.group(2), m.group(3)), "cap")
        for m in re.finditer(r"\b(FLEN_VALUE|_SIZE\w*)\b", body): add(i, l[:m.start()] + "(" + m.group(0) + " / 2)" + l[m.end():], "length")
        m = re.match(r"^(\s+[\w\->\[\].]+ = )([^;]+)(;.*)$", l)
        if m and "(" not in m.group(2) and not re.match(r"^[\dN]", m.group(2)):
            add(i, "%s(float)(%s)%s" % m.groups(), "float")
            add(i, "%s(short)(%s)%s" % m.groups(), "short")
        m = re.match(r"^(\s*)if \((.*)\)( \{)?$", l)
        if m and body.count("(") == body.count(")"):
            w = re.findall(r"\b(i|j|k|irec|iwave|iTable|nrec|index)\b", " ".join(text[max(0, i - 12):i]))
            if w: add(i, "%sif ((%s) && %s != 2)%s" % (m.group(1), m.group(2), w[-1], m.group(3) or ""), "rare")
        # whole statements
        if re.match(r"^\s+[\w\->\[\].*()&]+.*$", l) and not re.match(r"^\s*(return|goto|case|default|else|if|for|while|do|const|static|char|int|long|double|float|bool|gboolean|GList|oi_\w+ |fitsfile|STATUS|element|target|void|break|continue|size_t|GHash|GString|struct)\b", l):
            j = i
            prev = text[i - 1].strip() if i else ""
            if prev.endswith((";", "{", "}", "*/", ")", ":", "else")) or prev == "":
                depth, ok = 0, False
                while j < len(text) and j < i + 8:
                    if text[j].rstrip().endswith(";"): ok = True; break
                    if text[j].strip().endswith(("{", "}", "\\")): break
                    j += 1
                if ok: res.append((i, j + 1, [re.match(r"^\s*", l).group(0) + ";"], "delete"))
    return text, res


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=181:allocator_may_return_null=1:handle_abort=0:symbolize=0")
    e["UBSAN_OPTIONS"] = "symbolize=0"
    e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e


def main():
    scratch, n, seed, par = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:]
    global REPO
    os.makedirs(scratch, exist_ok=True)
    if not os.path.exists(scratch + "/base"): shutil.copytree(REPO + "/src", scratch + "/base/src")
    REPO = scratch + "/base" # a snapshot: the original may change meanwhile
    srcs = []
    for d in ("src/oifitslib", "src/util"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f in ORDER and (not files or f in files): srcs.append(d + "/" + f)
    pool = []
    for s in srcs:
        text, ms = mutants(os.path.join(REPO, s))
        pool += [(s, m) for m in ms]
    kinds = os.environ.get("MUTATE_KINDS", "").split(",")
    if kinds[0]: pool = [(s, m) for s, m in pool if m[3] in kinds]
    rnd = random.Random(seed)
    rnd.shuffle(pool)
    print(len(pool), "mutants")
    pool = pool[:n]
    slots = list(range(par))
    lock = threading.Lock()
    counts = {}
    for k in slots:
        w = "%s/w%d" % (scratch, k)
        if not os.path.exists(w):
            os.makedirs(w)
            shutil.copytree(REPO + "/src", w + "/repo/src")
            for x in ("Makefile", "harness", "build"):
                src = os.path.join(VERIF, x)
                (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, w + "/" + x)
            run(["make", "-s", "-j4", "-C", w, "REPO=" + w + "/repo", "B=" + w + "/build"])
            # products copied from elsewhere name other paths: build afresh
            run(["rm", "-rf", w + "/build/lib", w + "/build/u", w + "/build/bin"])
            r = run(["make", "-s", "-j4", "-C", w, "REPO=" + w + "/repo", "B=" + w + "/build"])
            if r.returncode: sys.exit(r.stdout)
    for l in run(["%s/w0/build/pbt" % scratch, "--list"]).stdout.split("\n"):
        if l.startswith("P"): counts[l.split()[0]] = 1
    known = [p for p in ALL if p in counts]

    def one(job):
        s, (a, b, new, kind) = job
        with lock: k = slots.pop()
        w = "%s/w%d" % (scratch, k)
        t0 = time.time()
        try:
            orig = open(os.path.join(REPO, s)).read()
            lines = orig.split("\n")
            old = lines[a:b]
            open(w + "/repo/" + s, "w").write("\n".join(lines[:a] + new + lines[b:]))
            r = run(["make", "-s", "-j2", "-C", w, "REPO=" + w + "/repo", "B=" + w + "/build"])
            verdict = "nobuild"
            if r.returncode == 0:
                first = ORDER[os.path.basename(s)].split()
                verdict = "SURVIVED"
                for p in [p for p in first if p in known] + [p for p in known if p not in first]:
                    out = w + "/out.json"
                    if os.path.exists(out): os.unlink(out)
                    own = p in first
                    try:
                        run([w + "/build/pbt", "--prop", p, "--seed", "1", "--tier", "quick", "--workers", "2", "--time", "20" if own else "4", "--shrink", "0",
                             "--out", out, "--replay-dir", w + "/replays"], env=env(), timeout=300, cwd=w)
                    except subprocess.TimeoutExpired:
                        verdict = p + " (timeout)"; break
                    try:
                        v = json.load(open(out))
                    except (OSError, ValueError):
                        verdict = p + " (no result)"; break
                    if v["violations"]: verdict = p; break
        finally:
            open(w + "/repo/" + s, "w").write(orig)
            with lock: slots.append(k)
        with lock, open(scratch + "/log", "a") as f:
            f.write("%s | %s:%d %s | %s -> %s | %.0f s\n" % (verdict, os.path.basename(s), a + 1, kind, " ".join(x.strip() for x in old), " ".join(x.strip() for x in new), time.time() - t0))

    with cf.ThreadPoolExecutor(par) as ex:
        list(ex.map(one, pool))


main()
