#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property on /repo's working tree (exit 0: held, 1: VIOLATION, 2: error)
   check.py --build              builds the explorer
   check.py --replay FILE        replays a recorded execution"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(HERE, "mc")
BUILD = os.path.join(HERE, "build")
CXX = "clang++"
CODE = ["-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]   # the code under test
HARNESS = ["-std=c++17", "-g1", "-DMC_ASAN", "-w"]
FAST = {"core.cpp", "env.cpp", "mime.cpp", "client.cpp", "checks_pure.cpp", "checks_value.cpp", "checks_content.cpp"}   # compiled with -O1, the others with -O0
WRAP = ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock",
                                    "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort")]
TWRAP = ["-Wl,--wrap=" + f for f in ("strtok", "localtime", "gmtime", "asctime", "ctime", "inet_ntoa", "setenv", "putenv", "setlocale", "SSL_read", "SSL_peek", "SSL_write", "SSL_read_ex", "SSL_write_ex")]
LINK = WRAP + ["-lssl", "-lcrypto", "-lpthread"]
# the thread build (second pass of C24): ThreadSanitizer, and a callback at every basic block of the library
TCODE = ["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard,pc-table", "-fsanitize-coverage-ignorelist=" + os.path.join(MC, "tsan", "ignore.txt")]
THARNESS = ["-std=c++17", "-g1", "-O1", "-DMC_TSAN", "-w"]
TFILES = {"core.cpp", "env.cpp", "mime.cpp", "client.cpp", "scen.cpp", "checks_thread.cpp", "thread_rt.cpp"}
LEVEL = "model_checking"


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(f):
    with open(f, "rb") as fh:
        return fh.read()


def tree(d, exts):
    r = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        r += [os.path.join(root, f) for f in sorted(files) if f.endswith(exts)]
    return r


def compile_one(src, obj, flags):
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        return "%s: %s" % (src, p.stderr[-3000:])
    os.replace(tmp, obj)
    return None


def link(out, cmd):
    if os.path.exists(out):
        return
    tmp = out + ".%d.tmp" % os.getpid()
    p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if p.returncode:
        print("cannot link: " + p.stderr[-3000:], file=sys.stderr)
        raise SystemExit(2)
    os.replace(tmp, out)


def build(tsan=False):
    """returns the explorer (or the thread-sanitizer runner) for the current sources, building what is missing"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(REPO, "src")
    rh = digest(*[f[len(src):].encode() + read(f) for f in tree(src, (".h", ".hpp"))])
    mh = digest(*[read(f) for f in tree(MC, (".h",))])
    jobs, objs = [], []
    inc = ["-I" + src]
    code = TCODE if tsan else CODE
    extra = read(os.path.join(MC, "tsan", "ignore.txt")) if tsan else b""
    for f in tree(src, (".cpp",)):
        if "/example" in f[len(src):]:
            continue
        o = os.path.join(BUILD, digest("code", f[len(src):], read(f), rh, code, extra) + ".o")
        jobs.append((f, o, code + inc))
        objs.append(o)
    for n in sorted(os.listdir(MC)):
        if not n.endswith(".cpp") or (tsan and n not in TFILES):
            continue
        f = os.path.join(MC, n)
        flags = (THARNESS if tsan else HARNESS + ["-O1" if n in FAST else "-O0"]) + inc
        # only these see the library's headers
        dep = rh if re.search(rb'#include "(?!core\.h|env\.h|scen\.h|client\.h)[a-z/]', read(f)) else ""
        o = os.path.join(BUILD, digest("mc", n, read(f), mh, dep, flags) + ".o")
        jobs.append((f, o, flags))
        objs.append(o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    jobs.sort(key=lambda j: not j[0].endswith("messageaddress.cpp"))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        print("the explorer does not build against the current tree:\n" + "\n".join(errs), file=sys.stderr)
        raise SystemExit(2)
    exe = os.path.join(BUILD, ("tsan-" if tsan else "mc-") + digest(LINK, TWRAP, *objs))
    link(exe, [CXX] + (["-fsanitize=thread"] if tsan else ["-fsanitize=address,undefined"]) + objs + (TWRAP if tsan else []) + LINK)
    # forget old objects
    fs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)), key=os.path.getmtime, reverse=True)
    total = 0
    for f in fs:
        total += os.path.getsize(f)
        if total > 1500 << 20 and f not in objs and f != exe:
            os.unlink(f)
    return exe


def known(prop):
    """[(regex over 'phase | message | scenario', description)] of the recorded, unrepaired findings of a property"""
    r = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
        if m and m.group(1) == prop:
            r.append((re.compile(m.group(2)), m.group(3)))
    return r


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        build()
        build(tsan=True)
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return subprocess.call([build("races:" in open(sys.argv[2], errors="replace").read(4000)), "replay", sys.argv[2], "--certs", os.path.join(MC, "certs")])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build()
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    try:
        out = os.path.join(scratch, "result.json")
        maxtime = int(min(720, 800 - tb)) if tier == "thorough" else int(min(560, 640 - tb))

        def explore(exe, maxtime, check=prop):
            if os.path.exists(out):
                os.unlink(out)
            p = subprocess.run([exe, "run", check, "--tier", tier, "--jobs", str(os.cpu_count() or 8), "--out", out, "--replaydir", rdir, "--certs", os.path.join(MC, "certs"), "--scratch", scratch, "--maxtime", str(maxtime)])
            if p.returncode not in (0, 1) or not os.path.exists(out):
                raise RuntimeError("the explorer failed with status %d" % p.returncode)
            return json.load(open(out))
        extra = {}
        if prop == "C24":   # second pass: the same works with the library under ThreadSanitizer
            texe = build(tsan=True)
            passes = []
            for check, name, part in (("C24first", "C24-first-", 4), ("C24", "C24-races-", 3)):
                r2 = explore(texe, maxtime // part, check)
                for v in r2["violations"]:   # every pass numbers its replays from the start again
                    new = os.path.join(rdir, re.sub("^%s-" % check, name, os.path.basename(v["replay"])))
                    os.replace(v["replay"], new)
                    v["replay"] = new
                passes.append(r2)
            d = explore(exe, maxtime * 5 // 12)
            extra = {"thread_sanitizer_passes": [{k: r2[k] for k in ("executions", "evaluations", "choice_points", "truncated", "phases")} for r2 in passes]}
            for r2 in passes:
                for k in ("executions", "choice_points", "evaluations", "states", "bulk_states", "distinct_outcomes", "nondeterministic", "unreproduced"):
                    d[k] += r2[k]
                d["truncated"] = d["truncated"] or r2["truncated"]
                d["violations"] += r2["violations"]
                d["phases"] += r2["phases"]
        else:
            d = explore(exe, maxtime)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    old, new = {}, []
    ks = known(prop)
    for v in d["violations"]:
        text = " | ".join((v["phase"], v["message"], v["scenario"]))
        for rx, desc in ks:
            if rx.search(text):
                old[desc] = old.get(desc, 0) + 1
                break
        else:
            new.append(v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": dict({
            "executions": d["executions"], "schedules": d["executions"], "transitions": d["choice_points"] + d["evaluations"],
            "states": d["states"] + d["bulk_states"] + d["evaluations"] or d["executions"], "choice_points": d["choice_points"], "bulk_evaluations": d["evaluations"],
            "distinct_outcomes": d["distinct_outcomes"], "max_choices_per_execution": d["max_choices_per_execution"],
            "traces_validated_against_impl": d["executions"] + d["evaluations"],
            "nondeterministic_executions": d["nondeterministic"], "unreproduced_candidates": d["unreproduced"], "time_cap_hit": d["truncated"], "exhaustive_within_bounds": not d["truncated"] and not d["violations"],
            "phases": d["phases"], "samples": d["samples"], "outcomes": d["outcomes"],
        }, **extra),
        "assumptions": [
            "The code under test is compiled from /repo/src with clang, AddressSanitizer and UndefinedBehaviorSanitizer; every execution runs that code itself, there is no separate model to validate.",
            "Sockets, resolver and clock are simulated; the peer is a strict SMTP server with a real OpenSSL TLS endpoint in the same process.",
            "Exhaustive within the bounds given for each phase (choice points, and at most deviation_bound deviations of the environment per execution).",
        ],
        "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2),
        "violations": [{"phase": v["phase"], "message": v["message"], "scenario": v["scenario"], "replay": os.path.relpath(v["replay"], HERE)} for v in new],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for desc in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    if new:
        for v in new[:6]:
            print("  [%s] %s (%s)" % (v["phase"], v["message"][:400], v["scenario"][:200]))
        for v in new[:6]:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    print("%s held: %d executions, %d choice points, %d evaluations, %d states, %d outcomes, %.1f s%s" % (prop, d["executions"], d["choice_points"], d["evaluations"], d["states"], d["distinct_outcomes"], time.time() - t0, " (time cap hit)" if d["truncated"] else ""))
    return 0


if __name__ == "__main__":
    try:
        status = main()
    except Exception as e:   # an error of the check is neither "held" nor a violation
        print("error: %r" % e, file=sys.stderr)
        status = 2
    sys.exit(status)
