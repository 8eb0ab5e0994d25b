#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--repo DIR]

Decides one property by running the library of /repo's working tree, rebuilt here with sanitizers or next to
guard pages, under a monitored workload.  Exit 0: held on everything observed.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken.  Any other exit: the check itself could not decide.
"""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import PROPS, VARIANTS  # noqa: E402

NPROC = int(os.environ.get("VERIF_NPROC") or min(8, os.cpu_count() or 8))
SAN_EXIT = 99
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99",
           MSAN_OPTIONS="exitcode=99",
           TSAN_OPTIONS="exitcode=99:halt_on_error=1:second_deadlock_stack=1",
           LC_ALL="C")


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def known_findings(prop):
    """known: property=C01 key=<key> <description> -- 'fixed:' lines suppress nothing"""
    out = {}
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s*(.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out


def build(prop, p, variants, repo, work):
    """compile harness + library once per variant, in parallel; returns {variant: binary}"""
    def one(v):
        vv = VARIANTS[v]
        flags = vv["flags"] + p.get("flags", []) + p.get("vflags", {}).get(v, [])
        exe = os.path.join(work, prop + "." + v)
        if vv.get("guided"):    # only the library is instrumented for coverage
            allow = os.path.join(work, "allow.txt")
            open(allow, "w").write("src:%s/*\nfun:*\n" % repo)
            flags = flags + ["-DVH_GUIDED", "-fsanitize=fuzzer-no-link", "-fno-sanitize-coverage=inline-8bit-counters,pc-table,stack-depth,trace-div,trace-gep,indirect-calls",
                             "-fsanitize-coverage=trace-pc-guard,trace-cmp", "-fsanitize-coverage-allowlist=" + allow]
        cmd = ([vv["cc"]] + ["-std=gnu11", "-w"] + flags +
               ["-I" + repo, "-I" + repo + "/accessories", "-I" + repo + "/test", "-I" + HERE + "/harness"] +
               ["-I" + os.path.join(repo, i) for i in p.get("inc", [])] +
               [os.path.join(HERE, "harness", h) for h in p["harness"]] +
               [os.path.join(repo, s) for s in p["src"]] + ["-o", exe] + p.get("libs", []) + vv.get("libs", []))
        r = subprocess.run(cmd, capture_output=True, text=True, env=ENV)
        if r.returncode:    # once more without the unusual shapes of operands (const, bit field neighbours, ...)
            cmd.insert(1, "-DVH_FALLBACK")
            r = subprocess.run(cmd, capture_output=True, text=True, env=ENV)
        return v, exe, r, cmd
    out = {}
    with ThreadPoolExecutor(NPROC) as ex:
        for v, exe, r, cmd in ex.map(one, variants):
            if r.returncode:
                sys.stderr.write(" ".join(cmd) + "\n" + r.stderr[-4000:])
                raise Inconclusive("the %s build failed" % v)
            out[v] = exe
    return out


def classify(out, err, rc):
    """returns (kind, key, message); kind in ok, violation, hang, harness"""
    m = re.search(r"MONITOR-FAIL case=(\d+) key=(\S+) (.*)", out)
    if m:
        return "violation", m.group(2), m.group(3)
    if rc == 0 and "HARNESS-OK" in out:
        return "ok", "", ""
    if rc == 78 or "MONITOR-HANG" in out:
        return "hang", "hang", "no progress within the CPU limit"
    if rc == 70:
        return "harness", "", err[-2000:]
    text = err + out
    m = re.search(r"(?:ERROR|WARNING): (\w+Sanitizer): ([\w-]+)", text)
    if m:
        frame = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) \S*(str\w+|xendian|prnf|aes)\.[ch]", text)
        return "violation", "sanitizer:%s:%s" % (m.group(2), frame.group(1) if frame else "?"), m.group(0) + (" in " + frame.group(1) if frame else "")
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", text)
    if m:
        return "violation", "ubsan:%s" % re.sub(r"[^a-z]+", "-", re.sub(r"-?\d+", "N", m.group(3).lower()))[:60], m.group(0)[-300:]
    if rc < 0 and rc != -signal.SIGKILL and rc != -signal.SIGTERM:
        return "violation", "signal:%s" % signal.Signals(-rc).name, "the process died with %s %s" % (signal.Signals(-rc).name, err[-300:])
    if rc == SAN_EXIT:
        return "violation", "sanitizer:?", text[-300:]
    return "harness", "", "exit %s: %s" % (rc, text[-2000:])


STOP = threading.Event()


def run_proc(cmd, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, env=ENV, timeout=timeout)
        return r.stdout.decode("latin-1"), r.stderr.decode("latin-1"), r.returncode
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode("latin-1"), "wall clock limit", 70


def shard(job):
    """run one shard to the end; a hang is re-run from the hanging case with a larger limit before it counts"""
    exe, prop, seed, k, n, cases, tier, work, tag, known, extra, timeout = job
    if STOP.is_set():       # a violation is known already
        return dict(kind="skipped", key="", msg="", case=None, seed=seed, stats="", tag=tag, err="", out="")
    stats = os.path.join(work, "%s.%d.json" % (tag, k))
    prog = os.path.join(work, "%s.%d.prog" % (tag, k))
    base = [exe, "prop=" + prop, "seed=%d" % seed, "to=%d" % cases, "stride=%d" % n, "tier=" + tier,
            "stats=" + stats, "progress=" + prog, "known=" + known] + extra
    out, err, rc = run_proc(base + ["from=%d" % k], timeout)
    kind, key, msg = classify(out, err, rc)
    case = None
    if kind != "ok":
        m = re.search(r"MONITOR-(?:FAIL|HANG) case=(\d+)", out)
        if m:
            case = int(m.group(1))
        else:
            try:
                case = struct.unpack("Q", open(prog, "rb").read(8))[0]
            except Exception:
                case = k
    tape = None
    if kind != "ok" and VARIANTS[tag].get("guided"):
        # a guided case is made of earlier ones; what it was made of is in the progress file
        try:
            d = open(prog, "rb").read()
            tape = d[4096:4096 + 16 + 8 * struct.unpack("Q", d[4096:4104])[0]]
            open(prog + ".tape", "wb").write(tape)
            extra = extra + ["tape=" + prog + ".tape"]
            base = [x for x in base if not x.startswith("to=")] + ["to=%d" % (case + 1)]
        except Exception:
            pass
    if kind == "hang":
        log("  note: %s shard %d ran into its CPU limit at case %s; running it again" % (tag, k, case))
        if os.environ.get("VERIF_DEBUG_HANG"):
            shutil.copy(exe, "/tmp/hang.exe")
            log(err[-3000:])
        out, err, rc = run_proc(base + ["from=%d" % case, "cpu=90"] + extra, timeout)
        kind2, key, msg = classify(out, err, rc)
        if kind2 == "ok":
            kind = "ok"
        elif kind2 == "hang":
            kind, key, msg = "violation", "hang", "the operation did not return within 90 s of CPU time"
        else:
            kind = kind2
    if kind == "violation" and key not in known.split(","):
        STOP.set()
    return dict(kind=kind, key=key, msg=msg, case=case, seed=seed, stats=stats, tag=tag, err=err, out=out, tape=tape)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", help="one build only: VARIANT:CASES (for experiments)")
    a = ap.parse_args()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        p = PROPS[a.prop]
        if a.replay:
            return replay(a, p, work)
        if p.get("custom"):
            import importlib
            return importlib.import_module(p["custom"]).run(a, p, work, t0)
        return run(a, p, work, t0)
    except Inconclusive as e:
        print("INCONCLUSIVE %s: %s" % (a.prop, e), file=sys.stderr)
        return 3
    finally:
        os.environ.get("VERIF_KEEP") or shutil.rmtree(work, ignore_errors=True)


def tape_args(tape, work):
    """the choices of a guided case, for its repetition"""
    if not tape:
        return []
    path = os.path.join(work, "replay.tape")
    open(path, "wb").write(tape)
    return ["tape=" + path]


def report(prop, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, re.sub(r"[^\w.-]+", "_", rec["key"])[:80]))
    json.dump(rec, open(path, "w"), indent=1)
    log("  %s: %s" % (rec["key"], rec["message"]))
    log("VIOLATION property=%s replay=%s" % (prop, path))


def write_evidence(prop, tier, seed, level, coverage, assumptions, t0, violations):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions,
                   wall_s=round(time.time() - t0, 2), violations=violations),
              open(os.path.join(d, prop + ".json"), "w"), indent=1)


def run(a, p, work, t0):
    prop = a.prop
    plan = p[a.tier]                     # list of (variant, cases)
    plan = [(v, max(int(n * a.scale), 1)) for v, n in plan]
    if a.only:
        plan = [(a.only.split(":")[0], int(a.only.split(":")[1]))]
    exes = build(prop, p, [v for v, _ in plan], a.repo, work)
    merge = os.path.join(work, "merge")
    if subprocess.run(["gcc", "-O2", "-w", os.path.join(HERE, "harness/merge.c"), "-o", merge]).returncode:
        raise Inconclusive("merge tool")
    known = known_findings(prop)
    kstr = ",".join(known)
    wall = 840 if a.tier == "quick" else 7200
    jobs = []
    nsh = p.get("shards", NPROC)
    for vi, (v, n) in enumerate(plan):
        for k in range(min(nsh, n)):
            jobs.append((exes[v], prop, a.seed * 64 + vi, k, min(nsh, n), n, a.tier, work, v, kstr,
                         ["scratch=" + work] + p.get("args", []), wall))
    for j in jobs:          # an implementation that is merely slow is explored less, not given up
        j[10].append("budget=%d" % (0.75 * wall * min(1, p.get("parallel", NPROC) / len(jobs))))
    with ThreadPoolExecutor(p.get("parallel", NPROC)) as ex:
        results = list(ex.map(shard, jobs))
    bad = [r for r in results if r["kind"] == "violation"]
    harness = [r for r in results if r["kind"] not in ("ok", "violation", "skipped")]
    # crashes are matched against the known findings by their key, like monitor failures
    kf = [r for r in bad if r["key"] in known]
    bad = [r for r in bad if r["key"] not in known]
    agg, counters, samples, known_seen = dict(evaluations=0, events=0, nontrivial=0), {}, [], {}
    per_variant, sets, edges_seen, edges = {}, [], set(), 0
    for r in results:
        if r["kind"] != "ok":
            continue
        s = json.load(open(r["stats"]))
        for k in agg:
            agg[k] += s[k]
        pv = per_variant.setdefault(r["tag"], dict(cases=0, observations=0))
        pv["cases"] += s["evaluations"]
        pv["observations"] += s["events"]
        edges = max(edges, s.get("edges", 0))
        edges_seen.update(s.get("edges_seen", []))
        for k, n in s["counters"].items():
            counters[k] = counters.get(k, 0) + n
        for x in s["samples"]:
            if len(samples) < 10 and x not in samples:
                samples.append(x)
        for x in s["known"]:
            known_seen[x.split(" ", 1)[0]] = x
        sets.append(r["stats"] + ".set")
    distinct = int(subprocess.run([merge] + sets, capture_output=True, text=True).stdout or 0)
    for r in kf:
        known_seen[r["key"]] = r["msg"]
    for k, x in sorted(known_seen.items()):
        log("KNOWN-FINDING: property=%s %s %s" % (prop, k, known.get(k, x)))
    seen = set()
    for r in sorted(bad, key=lambda r: (r["key"], r["case"] or 0)):
        if r["key"] in seen:
            continue
        seen.add(r["key"])
        v = r["tag"]
        out, err, rc = run_proc([exes[v], "prop=" + prop, "seed=%d" % r["seed"], "from=%d" % r["case"], "to=%d" % (r["case"] + 1),
                                 "trace=1", "tier=" + a.tier, "scratch=" + work, "cpu=90"] + p.get("args", []) + tape_args(r.get("tape"), work), 300)
        report(prop, dict(property=prop, variant=v, seed=r["seed"], case=r["case"], tier=a.tier, key=r["key"], message=r["msg"],
                          tape=r["tape"].hex() if r.get("tape") else None, trace=out[-8000:], stderr=(err or r["err"])[-8000:], how="python3 check.py %s --replay <this file>" % prop))
    coverage = dict(evaluations=agg["evaluations"], distinct_nontrivial=distinct, rule=p["rule"],
                    samples=samples or ["(none: the run ended at a violation before a sample was recorded)"],
                    observations=agg["events"], builds=per_variant, counters=dict(sorted(counters.items())))
    if edges:
        coverage["library_edges"] = dict(reached=len(edges_seen), instrumented=edges)
    if p.get("exhaustive") and not bad:
        coverage["exhaustive_part"] = p["exhaustive"]
    write_evidence(prop, a.tier, a.seed, "exploration", coverage, p.get("assume", []), t0, len(seen))
    if bad:
        return 1
    if harness:
        for r in harness[:3]:
            print("harness error (%s shard): %s" % (r["tag"], r["msg"]), file=sys.stderr)
        raise Inconclusive("%d shards did not finish" % len(harness))
    # a monitor that saw nothing decides nothing
    if agg["events"] == 0 or distinct == 0:
        raise Inconclusive("nothing was observed")
    for c in p.get("must_see", []):
        if counters.get(c, 0) == 0:
            raise Inconclusive("the workload never reached '%s'" % c)
    log("OK property=%s tier=%s seed=%d cases=%d distinct=%d observations=%d wall=%.1fs" %
        (prop, a.tier, a.seed, agg["evaluations"], distinct, agg["events"], time.time() - t0))
    return 0


def replay(a, p, work):
    rec = json.load(open(a.replay))
    if p.get("custom"):
        import importlib
        return importlib.import_module(p["custom"]).replay(a, p, work, rec)
    exes = build(a.prop, p, [rec["variant"]], a.repo, work)
    out, err, rc = run_proc([exes[rec["variant"]], "prop=" + a.prop, "seed=%d" % rec["seed"], "from=%d" % rec["case"],
                             "to=%d" % (rec["case"] + 1), "trace=1", "tier=" + rec.get("tier", "quick"), "scratch=" + work,
                             "cpu=90"] + p.get("args", []) + tape_args(bytes.fromhex(rec.get("tape") or ""), work), 600)
    sys.stdout.write(out[-20000:])
    sys.stderr.write(err[-20000:])
    kind, key, msg = classify(out, err, rc)
    if kind in ("violation", "hang"):
        log("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    return 0 if kind == "ok" else 3


if __name__ == "__main__":
    sys.exit(main())
