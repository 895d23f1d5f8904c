#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      run one check
   check.py replay <file>                    re-run a replay file against the current tree

One check =
  1. explore the component's specification with TLC (invariants and laws; prints one history per transition);
  2. build the driver from /repo/include and run it: the printed histories, exhaustive call sequences, random walks;
  3. hand every distinct observed transition (pre-state, call, result, post-state) to TLC, which rejects those
     that are not steps of the specification.
"""
import collections
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props as P

SAN = ["-fsanitize=address,undefined", "-fsanitize-trap=undefined"]
BASE = ["-std=c++20", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-w"]
ENV = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "detect_container_overflow=1:abort_on_error=0:malloc_context_size=4:quarantine_size_mb=32")


class CheckError(Exception):
    pass


def cxx():
    for c in ("g++-14", "g++"):
        if shutil.which(c):
            return c
    raise CheckError("no C++ compiler")


def avx2():
    try:
        return bool(re.search(r"^flags.*\bavx2\b", open("/proc/cpuinfo").read(), re.M))
    except OSError:
        return False


def build(cfg, out):
    """driver plus, for drivers split into instantiation units, the units this check needs"""
    driver = cfg["driver"]
    base = [cxx(), *BASE, *SAN, *cfg.get("defines", ()), "-I" + REPO + "/include", "-I" + ROOT + "/drivers"]
    jobs = [(["-c"], driver, out + ".o")]
    for u in cfg.get("units", ()):
        jobs.append((["-c", "-DUNIT=%d" % u], driver + "_unit", out + "_%d.o" % u))
    for u in cfg.get("avx2_units", ()) if avx2() else ():
        jobs.append((["-c", "-mavx2", "-DUNIT=%d" % u], driver + "_unit", out + "_%d.o" % u))

    def one(j):
        r = subprocess.run([*base, *j[0], os.path.join(ROOT, "drivers", j[1] + ".cpp"), "-o", j[2]], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("driver does not build:\n" + r.stderr[-4000:])
        return j[2]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, jobs))
    r = subprocess.run([cxx(), *SAN, *objs, *cfg.get("libs", ()), "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("driver does not link:\n" + r.stderr[-4000:])
    for o in objs:
        os.unlink(o)
    return out


def tlc(module, cfg, metadir, env=None, workers=1, heap="2g", timeout=800, extra=(), tagged=None):
    """runs TLC; lines starting with a tag go to the given function (which may end the run by returning True), so
    that what has to be kept of a very long output stays small. Returns (exit code or None, the rest of the output)"""
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", metadir,
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ, **(env or {}))
    pr = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    ended = []
    timer = threading.Timer(max(1, timeout), lambda: (ended.append("time"), pr.kill()))
    timer.start()
    head, tail = [], collections.deque(maxlen=4000)
    try:
        for line in pr.stdout:
            if tagged and line.startswith(tagged[0]):
                if tagged[1](line.rstrip("\n")):
                    ended.append("enough")
                    pr.kill()
                    break
            elif len(head) < 400:
                head.append(line[:2000])
            else:
                tail.append(line[:2000])
        pr.stdout.close()
        rc = pr.wait()
    finally:
        timer.cancel()
        if pr.poll() is None:
            pr.kill()
    return (None if ended else rc), "".join(head) + "".join(tail)


# ------------------------------------------------------------- specification
def explore(mc, work):
    """TLC on the specification itself. Returns (states, transitions, histories)."""
    name, consts = mc["module"], mc["constants"]
    tag = mc.get("tag", name)
    cfg = os.path.join(work, tag + ".cfg")
    with open(cfg, "w") as f:
        f.write("INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n")
        for inv in mc.get("invariants", ["Inv"]):
            f.write("INVARIANT %s\n" % inv)
        for k, v in consts.items():
            f.write("CONSTANT %s = %s\n" % (k, v))
    hists = []
    rc, out = tlc(name, cfg, os.path.join(work, "meta-" + tag), workers=mc.get("workers", 4), heap="4g",
                  timeout=mc.get("timeout", 800), tagged=('"T ', lambda line: hists.append(json.loads(json.loads(line)[2:]))))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or not m or "No error has been found" not in out:
        raise CheckError("TLC on %s failed:\n%s" % (name, out[-3000:]))
    return int(m.group(2)), int(m.group(1)), hists


def write_scripts(hists, path, variants, profile, limit=None, seed=1):
    """one history = shortest path + the transition's call. Histories that are a proper prefix of another
    one are dropped: replaying the longer one passes through them."""
    def flat(op):
        return " ".join(str(x) for x in op)
    seqs = {}
    for path_, op in hists:
        seqs[tuple(flat(o) for o in path_) + (flat(op),)] = None
    seqs = list(seqs)
    prefixes = set()
    for s in seqs:
        prefixes.add(s[:-1])
    seqs = [s for s in seqs if s not in prefixes]
    if limit and len(seqs) > limit:
        import random
        random.Random(seed).shuffle(seqs)
        seqs = seqs[:limit]
    with open(path, "w") as f:
        for v in variants:
            for s in seqs:
                f.write("reset %d %s\n" % (v, profile or "-"))
                f.write("\n".join(s) + "\n")
    return len(seqs) * len(variants)


# -------------------------------------------------------------------- driver
class Budget:
    """deaths of driver processes over the whole check: each is a logged line; enough of them settle the matter, and
    a call that never returns costs seconds each time, so the rest of the runs is given up then"""
    def __init__(self, n, seconds):
        self.left, self.lock, self.end = n, threading.Lock(), time.time() + seconds

    def died(self):
        with self.lock:
            self.left -= 1

    def seconds(self):
        return max(1, self.end - time.time())

    def spent(self):
        return self.left <= 0 or time.time() > self.end


def run_shard(binary, args, out, max_restarts, budget=None):
    """runs one driver process; a crash is a logged line, the run resumes at the next trace"""
    start, crashes, stats = 0, 0, [0, 0]
    while True:
        if budget and budget.spent():
            return stats, crashes
        cmd = [binary, *args, "--out", out, "--from", str(start)]
        try:
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=budget.seconds() if budget else 700)
        except subprocess.TimeoutExpired:
            return stats, crashes  # very slow code under test: what was recorded is judged
        m = re.search(r"DONE traces=(\d+) steps=(\d+)", r.stderr)
        if m:
            stats[0] += int(m.group(1)); stats[1] += int(m.group(2))
        if r.returncode == 0:
            return stats, crashes
        if r.returncode != 77:
            raise CheckError("driver ended with %d: %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-1500:]))
        crashes += 1
        if budget:
            budget.died()
        last = None
        with open(out, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - (4 << 20)))
            tail = f.read().splitlines()
            last = tail[-1] if tail else None
        try:
            w = json.loads(last)["w"]
        except Exception:
            raise CheckError("driver died without a record: %s\n%s" % (" ".join(cmd), r.stderr[-1500:]))
        stats[0] += max(0, w[2] - start)
        if crashes > max_restarts:
            return stats, crashes
        start = w[2] + 1


def run_driver(binary, runs, work, seed, seconds):
    """all runs, sharded; returns list of (run index, log file), totals"""
    jobs = []
    for ri, r in enumerate(runs):
        n = r.get("shards", JOBS)
        for s in range(n):
            args = [r["mode"], "--seed", str(seed + r.get("seed_off", 0)), "--variant", str(r.get("variant", 0)),
                    "--profile", r.get("profile") or "-", "--dedup", "1", "--shard", str(s), "--shards", str(n)]
            for k in ("traces", "len", "depth", "maxlines", "maxsteps", "script"):
                if k in r:
                    args += ["--" + k, str(r[k])]
            jobs.append((ri, args, os.path.join(work, "log-%d-%d.nd" % (ri, s))))
    totals = {"traces": 0, "steps": 0, "crashes": 0}
    logs = []
    budget = Budget(48, seconds)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [(ri, out, ex.submit(run_shard, binary, args, out, 6, budget)) for ri, args, out in jobs]
        for ri, out, f in futs:
            (t, s), c = f.result()
            totals["traces"] += t; totals["steps"] += s; totals["crashes"] += c
            if os.path.exists(out):
                logs.append((ri, out))
    return logs, totals


def collect(logs, work, chunk=30000, room=600 << 20):
    """merge the shard logs, drop duplicate transitions, cut into chunks. Of a log that would not fit into memory
    (only code that runs wild writes one) the first part is judged"""
    seen, keep, left, big = set(), [], room, 64 << 20
    for ri, path in logs:
        mine = left // 4 if len(logs) > 8 else left
        with open(path, "r", errors="replace") as f:
            for line in f:
                if not line.endswith("}\n"):
                    continue
                key = hash(line[line.find(',"pre":'):])
                if key not in seen:
                    if len(line) > 100000:
                        big -= len(line)
                        if big < 0:
                            continue
                    if mine < len(line):
                        continue
                    mine -= len(line)
                    left -= len(line)
                    seen.add(key)
                    keep.append((ri, line))
        os.unlink(path)
    # chunks of about the same size: neither too many lines nor, when lines are long, too much text for TLC's heap
    nbytes = sum(len(line) for _, line in keep)
    size = max(500, min(chunk, len(keep) // JOBS + 1))
    text = max(4 << 20, min(60 << 20, nbytes // JOBS + 1))
    chunks, cur, got = [], [], 0

    def cut():
        c = {"path": os.path.join(work, "chunk-%d.nd" % len(chunks)), "n": len(cur), "ri": [ri for ri, _ in cur]}
        with open(c["path"], "w") as f:
            f.writelines(line for _, line in cur)
        chunks.append(c)
    for ri, line in keep:
        cur.append((ri, line))
        got += len(line)
        if len(cur) >= size or got >= text:
            cut()
            cur, got = [], 0
    if cur:
        cut()
    return chunks, len(keep), nbytes


ENOUGH = 3000      # rejected lines of one chunk after which the rest of it need not be judged


def conform_chunk(conf, c, work, env, end=None):
    """TLC over one chunk; returns list of (line index, expectation) and whether the whole chunk was judged"""
    bad = []
    path, base = c["path"], 0
    lines = None
    tries = 0

    def rejected(line):
        _, i, v = json.loads(line).split(" ", 2)
        bad.append((base + int(i) - 1, v[:2000]))
        return len(bad) >= ENOUGH
    while True:
        meta = os.path.join(work, "meta-" + os.path.basename(path) + "-%d" % tries)
        rc, out = tlc(conf, os.path.join(SPEC, "Conf.cfg"), meta, env=dict(env, LOG=path), tagged=('"MISMATCH ', rejected),
                      timeout=max(5, end - time.time()) if end else 800)
        shutil.rmtree(meta, ignore_errors=True)
        if rc is None:
            return bad, False
        m = re.search(r'"CONF (\d+) (\d+)"', out)
        n = c["n"] - base
        if rc == 0 and m and int(m.group(1)) == n and int(m.group(2)) == n + 1:
            return bad, True
        if re.search(r"ran out of memory|OutOfMemoryError|StackOverflowError", out):
            return bad, False
        # the specification could not even be evaluated on a line: that line is no step of it
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        if "Error:" not in out or not ls:
            raise CheckError("TLC on %s failed:\n%s" % (path, out[-3000:]))
        at = int(ls[-1])
        if at > n:
            raise CheckError("TLC on %s failed:\n%s" % (path, out[-3000:]))
        msg = re.search(r"Error: (.*?)\n(?:Error: The behavior|The behavior)", out, re.S)
        bad.append((base + at - 1, "not interpretable by the specification: " + " ".join((msg.group(1) if msg else "").split())[:300]))
        tries += 1
        if tries > 3:
            return bad, True
        if lines is None:
            lines = open(c["path"]).read().splitlines(True)
        base += at
        if base >= c["n"]:
            return bad, True
        path = c["path"] + ".rest%d" % tries
        with open(path, "w") as f:
            f.writelines(lines[base:])


def conform(conf, chunks, work, env, end, known):
    """judges every chunk. Returns the rejected lines not listed as known findings (the shortest ones), their number,
    the number of rejected lines per known finding and whether everything was judged"""
    fresh, nfresh, hit, whole = [], 0, {}, True
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [(c, ex.submit(conform_chunk, conf, c, work, env, end)) for c in chunks]
        for c, f in futs:
            bad, all_judged = f.result()
            whole = whole and all_judged
            if not bad:
                continue
            lines = open(c["path"]).read().splitlines()
            for i, v in bad:
                x = json.loads(lines[i])
                text = json.dumps(x["op"]) + " " + json.dumps(x["res"])
                for k in known:
                    if re.search(k[1], text):
                        hit[k] = hit.get(k, 0) + 1
                        break
                else:
                    nfresh += 1
                    # the shortest histories first
                    fresh.append(((len(json.dumps(x["pre"])), x["w"][3] if x["w"][3] >= 0 else 0), nfresh, c["ri"][i], x, v))
                    if len(fresh) > 400:
                        fresh.sort(key=lambda b: b[:2])
                        del fresh[100:]
            del lines
    fresh.sort(key=lambda b: b[:2])
    return [b[2:] for b in fresh], nfresh, hit, whole


# ------------------------------------------------------------------- replays
def history(binary, run, w, seed):
    """the calls that led to an observed line, as a script"""
    mode, a, t, k = w
    if mode == "script":
        out, cur, n = [], None, -1
        with open(run["script"]) as f:
            for line in f:
                if line.startswith("reset"):
                    n += 1
                    if n > t:
                        break
                if n == t:
                    out.append(line.strip())
        return out[:1 + k + 1] if k >= 0 else out
    args = ["hist" if mode == "walk" else "exhhist", "--seed", str(a), "--traces", str(t), "--step", str(k),
            "--variant", str(run.get("variant", 0)), "--profile", run.get("profile") or "-"]
    if mode == "walk":
        args += ["--len", str(run["len"])]
    else:
        args += ["--depth", str(run["depth"])]
    r = subprocess.run([binary, *args], env=ENV, capture_output=True, text=True, timeout=120)
    return [l for l in r.stdout.splitlines() if l.strip()]


def replay_script(binary, conf, script_lines, work, env):
    sp, lg = os.path.join(work, "replay.script"), os.path.join(work, "replay.nd")
    with open(sp, "w") as f:
        f.write("\n".join(script_lines) + "\n")
    if os.path.exists(lg):
        os.unlink(lg)
    run_shard(binary, ["script", "--script", sp], lg, 1)
    n = sum(1 for _ in open(lg))
    bad, _ = conform_chunk(conf, {"path": lg, "n": n, "ri": [0] * n}, work, env)
    lines = open(lg).read().splitlines()
    return [(json.loads(lines[i]), v) for i, v in bad]


# ------------------------------------------------------------ known findings
def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
                if m:
                    out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = P.PROPS[pid]
    t0 = time.time()
    work = os.path.join(ROOT, "build", "%s-%s" % (pid, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    env = {}
    log = lambda *a: print("[%s %6.1fs]" % (pid, time.time() - t0), *a, flush=True)

    # 1 + build, side by side
    plan = cfg["quick"] if tier == "quick" else cfg.get("thorough", cfg["quick"])
    ex = cf.ThreadPoolExecutor(8)
    fb = ex.submit(build, cfg, os.path.join(work, cfg["driver"]))
    fms = [ex.submit(explore, mc, work) for mc in plan.get("mc", [])]
    try:
        binary = fb.result()
    except CheckError as e:
        print(e)
        return 2
    log("driver built")
    states = trans = 0
    runs = []
    nscripts = 0
    for mc, fm in zip(plan.get("mc", []), fms):
        s, t, hists = fm.result()
        states += s; trans += t
        sc = os.path.join(work, mc.get("tag", mc["module"]) + ".script")
        n = write_scripts(hists, sc, mc.get("variants", [0]), mc.get("profile", ""), mc.get("limit"), seed)
        nscripts += n
        log("specification %s explored: %d states, %d transitions, no law broken; %d histories to replay" % (mc.get("tag", mc["module"]), s, t, n))
        runs.append({"mode": "script", "script": sc, "label": mc.get("tag", mc["module"])})
    runs += [r for r in plan["runs"] if r.get("cpu") != "avx2" or avx2()]

    # 2
    logs, tot = run_driver(binary, runs, work, seed, 420 if tier == "quick" else 6 * 3600)
    log("driver: %d traces, %d calls, %d crashes" % (tot["traces"], tot["steps"], tot["crashes"]))

    # 3
    chunks, distinct, nbytes = collect(logs, work, plan.get("chunk", 30000), (600 << 20) if tier == "quick" else (4 << 30))
    log("%d distinct observed transitions in %d chunks, %d MB" % (distinct, len(chunks), nbytes >> 20))
    known = [k for k in known_findings() if k[0] == pid]
    fresh, nfresh, hit, whole = conform(cfg["conf"], chunks, work, env, t0 + (840 if tier == "quick" else 11 * 3600), known)
    log("conformance: %d transitions judged, %d rejected" % (distinct, nfresh + sum(hit.values())))
    if not whole and not fresh:
        raise CheckError("the time did not suffice to judge every observed transition")

    samples = []
    for c in chunks[:1]:
        with open(c["path"]) as f:
            for i, line in enumerate(f):
                if i % max(1, c["n"] // 4) == 0 and len(samples) < 4:
                    samples.append(line.strip()[:600])
    calls = {}
    for c in chunks:
        with open(c["path"]) as f:
            for line in f:
                m = re.search(r'"op":\["([^"]+)"', line)
                if m:
                    calls[m.group(1)] = calls.get(m.group(1), 0) + 1

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    violations = []
    if fresh:
        # the shortest histories are reported
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for ri, x, v in fresh[:3]:
            try:
                h = history(binary, runs[ri], x["w"], seed)
            except Exception as e:  # noqa
                h = []
            again = []
            try:
                if h:
                    again = replay_script(binary, cfg["conf"], h, work, env)
            except Exception as e:  # noqa
                again = []
            rp = os.path.join(rdir, "%s-%d.json" % (pid, len(violations) + 1))
            with open(rp, "w") as f:
                json.dump({"property": pid, "history": h, "observed": {"pre": x["pre"], "call": x["op"], "result": x["res"], "post": x["post"]},
                           "specification_expected": v, "reproduced_in_a_fresh_process": bool(again)}, f, indent=1)
            violations.append({"replay": rp, "op": x["op"]})
            print("observed: call %s result %s" % (json.dumps(x["op"]), json.dumps(x["res"])[:300]))
            print("expected: %s" % v[:600])
            print("history : %s" % " ; ".join(h)[:600])
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": nfresh,
        "coverage": {
            "states": states + distinct, "transitions": trans + distinct,
            "traces_validated_against_impl": tot["traces"],
            "spec_states_explored": states, "spec_transitions_explored": trans,
            "histories_generated_from_spec_and_replayed": nscripts,
            "calls_executed": tot["steps"], "distinct_observed_transitions_judged": distinct,
            "judged_per_call": calls,
            "runs": [{k: v for k, v in r.items() if k != "script"} for r in runs],
            "known_findings": [{"what": k[2], "lines": hit.get(k, 0)} for k in known],
            "samples": samples or ["none"],
        },
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    log("done")
    return 1 if fresh else 0


def do_replay(path):
    r = json.load(open(path))
    cfg = P.PROPS[r["property"]]
    work = os.path.join(ROOT, "build", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        binary = build(cfg, os.path.join(work, cfg["driver"]))
        bad = replay_script(binary, cfg["conf"], r["history"], work, {})
        for x, v in bad:
            print("call %s result %s\n  expected %s" % (json.dumps(x["op"]), json.dumps(x["res"]), v))
        print("REPRODUCED" if bad else "NOT REPRODUCED")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error:", e)
        sys.exit(2)
