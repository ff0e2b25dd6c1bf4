#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py <PROPERTY> quick|thorough     search; exit 0 held, 1 violation (VIOLATION line + replay file), 2 harness error
  check.py replay <FILE>                 re-run one replay file; prints its event log; exit 1 when it reproduces
  check.py determinism [WORLD...]        every seed of a sample is run in two processes with different neighbours, logs diffed
"""
import json, os, re, signal, subprocess, sys, tempfile, threading, time, queue, random, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
from props import PROPS

NPROC = min(8, os.cpu_count() or 8)
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:quarantine_size_mb=16:"
                       "allocator_may_return_null=1:handle_abort=0:abort_on_error=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=4:max_allocation_size_mb=2048")
ENV.pop("HBSIM_REEXEC", None)
REPLAYS = os.environ.get("HBSIM_REPLAYS", os.path.join(VERIF, "replays"))
T0 = time.time()


def say(*a):
    print(*a, flush=True)


class Proc:
    """One simulator process run to completion; every ending is classified."""

    def __init__(self, exe, args, opts=(), wall=120, cwd=None):
        cmd = [exe] + args
        for o in opts:
            cmd += ["--opt", o]
        self.seeds, self.results, self.counters = [], [], {}
        self.viol = None          # (seed, hash, class, message)
        self.ended = False
        self.log = []
        with tempfile.TemporaryFile() as err:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, env=ENV, cwd=cwd, start_new_session=True)
            timer = threading.Timer(wall, lambda: kill(p))
            timer.start()
            self.wall_hit = False
            t = time.time()
            try:
                for line in p.stdout:
                    line = line.decode("utf-8", "replace").rstrip("\n")
                    self.line(line)
            finally:
                timer.cancel()
            p.wait()
            if time.time() - t >= wall - 0.5:
                self.wall_hit = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            err.seek(0)
            self.err = err.read(200000).decode("utf-8", "replace")
        self.rc = p.returncode
        if self.viol is None and not self.ended:
            seed = self.seeds[-1] if self.seeds else None
            k, m = self.classify()
            self.viol = (seed, None, k, m)

    def line(self, l):
        if l.startswith("S "):
            self.seeds.append(int(l[2:]))
        elif l.startswith("R "):
            f = l.split()
            self.results.append((int(f[1]), f[2], f[3], f[4] == "1"))
        elif l.startswith("C "):
            f = l.split()
            self.counters[f[1]] = self.counters.get(f[1], 0) + int(f[2])
        elif l.startswith("V "):
            f = l.split(" ", 4)
            self.viol = (int(f[1]), f[2], f[3], f[4] if len(f) > 4 else "")
        elif l == "E":
            self.ended = True
        elif l.startswith("  "):
            self.log.append(l[2:])

    def classify(self):
        e = self.err
        if self.rc == 3 or "HARNESS:" in e:
            return "harness", (e.strip().splitlines() or ["?"])[-1]
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", e)
        if m:
            frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) \S*?([\w.]+\.[cly]+:\d+)", e)
            where = ", ".join("%s (%s)" % f for f in frames[:3])
            return "memory-error", "AddressSanitizer %s in %s" % (m.group(1), where)
        if self.rc == 98 or "HANG:" in e:
            return "hang", "CPU time limit of one run exceeded"
        if self.wall_hit:
            return "hang", "wall-clock limit of the batch exceeded"
        if self.rc is not None and self.rc < 0:
            return "crash", "killed by %s" % signal.Signals(-self.rc).name
        return "crash", "the process ended with status %s: %s" % (self.rc, e.strip()[-200:])


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def same(a, b):
    return a is not None and b is not None and a[2] == b[2]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def is_known(known, prop, v):
    for k in known:
        if k.get("status") == "open" and k["property"] == prop and k["class"] == v[2] and re.search(k["match"], v[3]):
            return k
    return None


def parse_rec(path):
    """record file -> (values, spans [(start,end)])"""
    vals, spans, st = [], [], []
    for l in open(path):
        l = l.rstrip("\n")
        if l == "(":
            st.append(len(vals))
        elif l == ")":
            if st:
                spans.append((st.pop(), len(vals)))
        elif l:
            vals.append(int(l.split(" ", 1)[0]))
    for s in st:
        spans.append((s, len(vals)))
    return vals, spans


class Minimiser:
    def __init__(self, exe, world, opts, klass, wall, tmp):
        self.exe, self.world, self.opts, self.klass, self.wall, self.tmp = exe, world, opts, klass, wall, tmp
        self.n = 0

    def run(self, vals, rec=True):
        self.n += 1
        base = os.path.join(self.tmp, "m%d_%d" % (self.n, threading.get_ident()))
        open(base, "w").write("\n".join(map(str, vals)) + "\n")
        p = Proc(self.exe, ["replay", self.world, base, "quiet", base + ".rec"], self.opts, self.wall)
        ok = p.viol is not None and p.viol[2] == self.klass
        got = None
        if ok:
            got = parse_rec(base + ".rec")
            while got[0] and got[0][-1] == 0:
                got[0].pop()
        for f in (base, base + ".rec"):
            try:
                os.unlink(f)
            except OSError:
                pass
        return (got, p.viol) if ok else (None, None)

    def minimise(self, vals, deadline):
        best, viol = self.run(vals)
        if best is None:
            return None, None
        ex = ThreadPoolExecutor(NPROC)

        def attempt(cands):
            nonlocal best, viol
            for i in range(0, len(cands), NPROC):
                if time.time() > deadline:
                    return False
                chunk = cands[i:i + NPROC]
                for got, v in ex.map(self.run, chunk):
                    if got is not None and (len(got[0]), sum(got[0])) < (len(best[0]), sum(best[0])):
                        best, viol = got, v
                        return True
            return False
        while time.time() < deadline:
            progress = False
            v = best[0]
            # shortest prefix
            while attempt([best[0][:len(best[0]) * k // 8] for k in range(1, 8)]):
                progress = True
                if time.time() > deadline:
                    break
            # delete spans, big ones first
            while time.time() < deadline:
                v, spans = best
                cands = sorted({(s, e) for s, e in spans if e > s and s < len(v)}, key=lambda x: -(x[1] - x[0]))
                if not attempt([v[:s] + v[e:] for s, e in cands]):
                    break
                progress = True
            # smaller values
            i = 0
            while i < len(best[0]) and time.time() < deadline:
                v = best[0]
                if v[i]:
                    c = [v[:i] + [x] + v[i + 1:] for x in dict.fromkeys([0, v[i] // 2, v[i] - 1]) if x < v[i]]
                    if attempt(c):
                        progress = True
                        continue
                i += 1
            if not progress:
                break
        ex.shutdown()
        return best[0], viol


def cmd_check(prop, tier):
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known()
    variant = P.get("variant", "asan")
    exe = B.build(variant)
    built = time.time() - T0
    budget = float(os.environ.get("HBSIM_BUDGET", P.get(tier, 35 if tier == "quick" else 600)))
    worlds = P["worlds"]          # list of (world, weight, opts)
    batch = P.get("batch", 100)
    wall = P.get("wall", 120)
    tmp = ENV["HBSIM_TMP"] = tempfile.mkdtemp(prefix="hbsim_")
    stop = threading.Event()
    lock = threading.Lock()
    found = []
    tot = {"runs": 0, "nontrivial": 0, "batches": 0}
    sigs, counters, perworld = set(), {}, {}
    harness_err = []
    sched = [w for w in worlds for _ in range(w[1])]
    nxt = [0]
    start = time.time()
    deadline = start + budget
    minruns = P.get("min_runs", 50)

    def worker():
        while not stop.is_set():
            with lock:
                i = nxt[0]
                nxt[0] += 1
                if time.time() > deadline and tot["runs"] >= minruns:
                    return
            world, _, opts = sched[i % len(sched)]
            s0 = ((seed * 1000003 + i) * 100000) % (1 << 62)
            p = Proc(exe, ["batch", world, str(s0), str(batch)], opts, wall)
            with lock:
                tot["batches"] += 1
                tot["runs"] += len(p.results)
                pw = perworld.setdefault(world, {"runs": 0, "example": s0})
                pw["runs"] += len(p.results)
                for (sd, h, sg, nt) in p.results:
                    if nt:
                        tot["nontrivial"] += 1
                        sigs.add((world, sg))
                for k, v in p.counters.items():
                    counters[k] = counters.get(k, 0) + v
                if p.viol is not None:
                    if p.viol[2] == "harness":
                        harness_err.append("%s seed %s: %s" % (world, p.viol[0], p.viol[3]))
                        stop.set()
                        return
                    k = is_known(known, prop, p.viol)
                    if k is None:
                        found.append((world, opts, s0, p.viol, p.err))
                        if len(found) >= 3:
                            stop.set()
                        elif not stop.is_set() and len(found) == 1:
                            threading.Timer(5, stop.set).start()
                    else:
                        k["_seen"] = k.get("_seen", 0) + 1
    ths = [threading.Thread(target=worker) for _ in range(NPROC)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    searched = time.time() - start

    code = 0
    violations = 0
    if harness_err:
        say("HARNESS ERROR:", harness_err[0])
        code = 2
    unrepro = []
    if code == 0:
        for (world, opts, s0, v, err) in found:
            r = confirm(exe, prop, variant, world, opts, s0, v, wall, tmp, P)
            if r is None:
                unrepro.append((world, v))
                continue
            if isinstance(r, tuple) and r[0] == "known":
                continue
            violations += 1
            code = 1
            break
        if code == 0 and unrepro:
            w, v = unrepro[0]
            say("HARNESS ERROR: a violation did not reproduce: world %s seed %s class %s: %s" % (w, v[0], v[2], v[3]))
            code = 2
    # known findings: re-run their recorded replay
    for k in known:
        if k["property"] == prop and k.get("status") == "open":
            rf = os.path.join(VERIF, k["replay"])
            ok, _ = run_replay(exe, json.load(open(rf)), wall, tmp)
            if ok or k.get("_seen"):
                say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    samples = []
    for world, pw in list(perworld.items())[:4]:
        opts = [w for w in worlds if w[0] == world][0][2]
        p = Proc(exe, ["trace", world, str(pw["example"])], opts, wall)
        samples.append({"world": world, "seed": pw["example"], "events": [e[:200] for e in p.log[:14]], "events_total": len(p.log)})
    wall_s = time.time() - T0
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe.")}
    simx = {k[4:]: v for k, v in sorted(counters.items()) if k.startswith("sim.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(sigs), "rule": P["rule"],
            "samples": samples,
            "nontrivial_runs": tot["nontrivial"],
            "runs_per_hour": int(tot["runs"] * 3600 / max(searched, 0.001)), "seeds_per_hour": int(tot["runs"] * 3600 / max(searched, 0.001)),
            "runs_per_world": {w: x["runs"] for w, x in perworld.items()},
            "simulated_seconds": simx.get("seconds", 0), "fault_kinds_fired": faults, "probes": probes, "simulator_counters": simx,
            "distinct_measure": P.get("measure", "hash over the operation kinds, outcomes and fault positions of a run"),
            "real_components": P["real"], "stubbed_components": P["stub"],
            "build_seconds": round(built, 1), "search_seconds": round(searched, 1), "worker_processes": NPROC,
            "known_finding_hits": {k["what"]: k.get("_seen", 0) for k in known if k["property"] == prop and k.get("status") == "open"},
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(wall_s, 1), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    if code == 0:
        say("OK property=%s runs=%d distinct=%d searched=%.0fs total=%.0fs" % (prop, tot["runs"], len(sigs), searched, wall_s))
    return code


def confirm(exe, prop, variant, world, opts, s0, v, wall, tmp, P):
    """Gate, minimise, write and re-run the replay file. None: did not reproduce."""
    seed = v[0]
    if seed is None:
        return None
    rec = os.path.join(tmp, "rec")
    res = []
    for i in range(2):
        p = Proc(exe, ["trace", world, str(seed), rec + str(i)], opts, wall)
        res.append(p)
    replay = {"property": prop, "world": world, "variant": variant, "opts": list(opts), "seed": seed}
    if same(res[0].viol, v) and same(res[1].viol, v) and res[0].viol[1] == res[1].viol[1] and res[0].log == res[1].log:
        vals, _ = parse_rec(rec + "0")
        m = Minimiser(exe, world, opts, v[2], wall, tmp)
        best, mv = m.minimise(vals, time.time() + float(os.environ.get("HBSIM_MINIMISE", 45)))
        if best is None:
            return None
        replay.update({"kind": "choices", "choices": best, "class": mv[2], "message": mv[3]})
        if is_known(load_known(), prop, mv):
            # the minimised run fell into a known finding: report the original run instead
            replay.update({"choices": vals, "class": v[2], "message": v[3]})
    else:
        seeds = list(range(s0, seed + 1))
        # code that depends on addresses or on memory it never wrote may fail only now and then: it has to fail again
        again = [Proc(exe, ["trace", world, ",".join(map(str, seeds))], opts, wall) for i in range(2)]
        if not all(same(p.viol, v) for p in again):
            again = [Proc(exe, ["trace", world, ",".join(map(str, seeds))], opts, wall) for i in range(6)]
            if not any(same(p.viol, v) for p in again + res):
                return None
            replay["unstable"] = True
        while len(seeds) > 1 and time.time() < T0 + 600 and "unstable" not in replay:
            half = seeds[len(seeds) // 2:]
            p = Proc(exe, ["trace", world, ",".join(map(str, half))], opts, wall)
            if not same(p.viol, v):
                break
            seeds = half
        replay.update({"kind": "seeds", "seeds": seeds, "class": v[2], "message": v[3]})
    ok, p = run_replay(exe, replay, wall, tmp)
    ok2, p2 = run_replay(exe, replay, wall, tmp)
    if not ok or not ok2 or p.log != p2.log:
        tries = 2
        while not ok and tries < 12:
            ok, p = run_replay(exe, replay, wall, tmp)
            tries += 1
        if not ok:
            return None
        replay["unstable"] = True
        say("the code under test does not behave the same in every execution of this replay")
    replay["message"] = p.viol[3]
    replay["trace"] = p.log
    if p.err.strip():
        replay["stderr"] = p.err[:6000]
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, world, seed))
    json.dump(replay, open(path, "w"), indent=1)
    say("violated: world=%s class=%s %s" % (world, replay["class"], replay["message"]))
    say("minimised schedule and fault trace (%d events):" % len(p.log))
    for l in p.log[-25:]:
        say("   " + l[:300])
    say("VIOLATION property=%s replay=%s" % (prop, path))
    return "violation"


def run_replay(exe, r, wall, tmp):
    if r["kind"] == "choices":
        f = os.path.join(tmp, "replay%d" % random.randrange(1 << 40))
        open(f, "w").write("\n".join(map(str, r["choices"])) + "\n")
        p = Proc(exe, ["replay", r["world"], f], r["opts"], wall)
        os.unlink(f)
    else:
        p = Proc(exe, ["trace", r["world"], ",".join(map(str, r["seeds"]))], r["opts"], wall)
    return (p.viol is not None and p.viol[2] == r["class"]), p


def cmd_replay(path):
    r = json.load(open(path))
    exe = B.build(r["variant"])
    tmp = ENV["HBSIM_TMP"] = tempfile.mkdtemp(prefix="hbsim_")
    for _ in range(12 if r.get("unstable") else 1):
        ok, p = run_replay(exe, r, 120, tmp)
        if ok:
            break
    shutil.rmtree(tmp, ignore_errors=True)
    for l in p.log:
        say("   " + l)
    if p.err.strip():
        say(p.err[:4000])
    if ok:
        say("reproduced: class=%s %s" % (p.viol[2], p.viol[3]))
        return 1
    say("not reproduced: " + (("class=%s %s" % (p.viol[2], p.viol[3])) if p.viol else "the run holds"))
    return 0


def cmd_determinism(names):
    bad = 0
    done = set()
    for prop, P in PROPS.items():
        for world, _, opts in P["worlds"]:
            key = (world, tuple(opts))
            if key in done or (names and world not in names):
                continue
            done.add(key)
            exe = B.build(P.get("variant", "asan"))
            n = 160
            def one(a):
                s0, cnt = a
                return Proc(exe, ["batch", world, str(s0), str(cnt)], opts, 600).results
            with ThreadPoolExecutor(NPROC) as ex:
                a = {r[0]: r for l in ex.map(one, [(5000000 + i, 20) for i in range(0, n, 20)]) for r in l}
            with ThreadPoolExecutor(3) as ex:
                b = {r[0]: r for l in ex.map(one, [(5000000 + i, 1) for i in range(0, n)]) for r in l}
            diff = [s for s in a if s in b and a[s] != b[s]]
            say("%s %s: %d seeds compared, %d differ" % (world, list(opts), len(set(a) & set(b)), len(diff)), diff[:5])
            bad += len(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(cmd_replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "determinism":
        sys.exit(cmd_determinism(sys.argv[2:]))
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print(__doc__)
        sys.exit(2)
    sys.exit(cmd_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
