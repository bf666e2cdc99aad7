#!/usr/bin/env python3
"""Run the check of one property against /repo's current working tree.

usage: check.py build | check.py <property> [quick|thorough] | check.py --replay FILE
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
THREADS = ("P31",)  # properties which the binary under ThreadSanitizer checks
LEVEL = {"P22": "fault_enumeration"}
TIME = {"quick": 240, "thorough": 660}  # cap on exploration; case counts end it earlier


def env(symbolize=0):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=181:"
                         "allocator_may_return_null=1:handle_abort=0:symbolize=%d" % symbolize)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:symbolize=%d" % symbolize
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:ignore_noninstrumented_modules=1:history_size=4:symbolize=%d" % symbolize
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    e.pop("G_MESSAGES_DEBUG", None)
    e.pop("G_DEBUG", None)
    return e


def binary(prop):
    return BUILD + ("/pbt-threads" if prop in THREADS else "/pbt")


def digest(top, suffixes):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(top)):
        for f in sorted(files):
            if f.endswith(suffixes):
                h.update((os.path.join(d, f) + "\0").encode())
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def stamp(name, value, products, lazy=False):
    """Remove products of other content, whatever the time stamps say."""
    p = os.path.join(BUILD, ".stamp-" + name)
    old = open(p).read() if os.path.exists(p) else None
    if old == value:
        return
    # harness sources under development are left to make's time stamps
    if not (lazy and os.environ.get("VERIF_DEV")):
        for x in products:
            subprocess.run(["rm", "-rf", os.path.join(BUILD, x)])
    with open(p, "w") as f:
        f.write(value)


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp("src", digest(REPO + "/src", (".c",)), ["lib", "u", "bin", "pbt", "tlib", "pbt-threads"])
        stamp("hdr", digest(REPO + "/src", (".h",)), ["lib", "u", "bin", "pbt", "h", "tlib", "th", "pbt-threads"])
        stamp("harness", digest(HERE + "/harness", (".cc", ".h")), ["pbt", "h", "th", "pbt-threads"], lazy=True)
        r = subprocess.run(["make", "-s", "-j8", "-C", HERE, "REPO=" + REPO, "B=" + BUILD],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            # stale products (other tree, other compiler): once more from scratch
            subprocess.run(["rm", "-rf"] + [BUILD + "/" + x for x in ("lib", "u", "bin", "h", "pbt", "tlib", "th", "pbt-threads")])
            r = subprocess.run(["make", "-s", "-j8", "-C", HERE, "REPO=" + REPO, "B=" + BUILD],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r


def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), m.group(2).strip()))
    return out


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        prop = None
        for line in open(sys.argv[2]):
            if line.startswith("property:"):
                prop = line.split(":")[1].strip()
        r = build()
        if r.returncode:
            print(r.stdout)
            return 2
        return subprocess.run([binary(prop), "--prop", prop, "--replay", sys.argv[2]], env=env(1)).returncode
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        r = build()
        sys.stdout.write(r.stdout)
        return 0 if r.returncode == 0 else 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    r = build()
    if r.returncode:
        sys.stdout.write(r.stdout)
        print("cannot build the harness against", REPO)
        return 2
    t_build = time.time() - t0
    out = os.path.join(BUILD, "out-%s-%d.json" % (prop, os.getpid()))
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    res = None
    total_unrep = 0
    for attempt in range(3):
        budget = TIME[tier] - (time.time() - t0 - t_build)
        if attempt and budget < 60:
            break
        cmd = [binary(prop), "--prop", prop, "--seed", str(seed + 1000003 * attempt), "--tier", tier, "--workers", "8",
               "--time", str(int(max(budget, 60))), "--out", out, "--replay-dir", replays]
        p = subprocess.run(cmd, env=env(), stdin=subprocess.DEVNULL)
        try:
            res = json.load(open(out))
        except (OSError, ValueError) as e:
            print("harness ended with %d and no result: %s" % (p.returncode, e))
            return 2
        finally:
            if os.path.exists(out):
                os.unlink(out)
        # A failure which does not reproduce is not believed; explore on with other seeds
        if not res["unreproduced"]:
            break
        total_unrep += 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": res["evaluations"], "cases": res["cases"], "nontrivial": res["nontrivial"],
            "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"], "samples": res["samples"],
            "labels": res["labels"],
        },
        "assumptions": res["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": res["violations"],
    }
    if res["exhaustive"]:
        ev["coverage"]["exhaustive"] = True
    if total_unrep:
        ev["coverage"]["unreproduced_failures"] = total_unrep
    if res["cases"] < res["requested"] and not res["violations"]:
        ev["coverage"]["stopped_by_time_cap"] = True
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    for k, what in known():
        if k == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s (%s): %d cases, %d evaluations, %d distinct non-trivial, %.1f s" % (
        prop, res["name"], res["cases"], res["evaluations"], res["distinct_nontrivial"], time.time() - t0))
    if res["violations"]:
        print(res["message"])
        # once more with symbols, for the reader of the replay file
        r = subprocess.run([binary(prop), "--prop", prop, "--replay", res["replay"]], env=env(1), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, errors="replace")
        with open(res["replay"], "a") as f:
            f.write("--- replayed ---\n" + r.stdout)
        print("VIOLATION property=%s replay=%s" % (prop, res["replay"]))
        return 1
    return 0


sys.exit(main())
