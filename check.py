#!/usr/bin/env python3
"""check.py Pxx : run the monitors that decide property Pxx on the current tree of /repo.

Every case is a generated workload executed by the harness (real library code, built with ASan+UBSan); the oracles
run inside the harness and write an event log, which this driver turns into a verdict:
  exit 0  held on everything observed          exit 1  VIOLATION line(s)          exit 2  error of the check
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import vbuild

VERIF = vbuild.VERIF
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
MEMKINDS = ("double-free", "heap-use-after-free", "alloc-dealloc-mismatch", "bad-free", "attempting free", "bad_free")


def load_props():
    return {json.loads(l)["id"]: json.loads(l) for l in open(VERIF + "/properties.jsonl") if l.strip()}


class Case:
    def __init__(self, line):
        self.name, props, nq, nt, fl = line.strip().split("|")
        self.props = props.split()
        self.nq, self.nt, self.flags = int(nq), int(nt), int(fl)
        self.slow, self.noleak, self.nodet = self.flags & 1, self.flags & 2, self.flags & 4


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.viol = {}            # key -> (msg, case, iter, mode)
        self.iters = self.checks = self.allocs = 0
        self.sigs = {}
        self.counters = {}
        self.percase = {}
        self.samples = []
        self.digests = {}
        self.stop = {}            # case -> failures so far
        self.inconclusive = []
        self.tmp = tempfile.mkdtemp(prefix="c3verif.", dir=os.environ.get("TMPDIR", "/tmp"))
        self.deadline = time.time() + (600 if tier == "quick" else 7200)

    # ------------------------------------------------------------ one harness process
    def exec_(self, exe, case, frm, to, tag, mode, extra=(), env=None, cpu=25, wrapper=()):
        d = tempfile.mkdtemp(prefix="r.", dir=self.tmp)
        scratch = os.path.join(d, "s")
        os.mkdir(scratch)
        log = os.path.join(d, "log")
        e = dict(os.environ)
        e.update({"LC_ALL": "C", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
        e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:quarantine_size_mb=16:allocator_may_return_null=0:"
                             "max_allocation_size_mb=2000:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:"
                             "handle_abort=1:strict_string_checks=1:log_path=" + d + "/san" +
                             (":" + env["ASAN_EXTRA"] if env and "ASAN_EXTRA" in env else ""))
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66:log_path=" + d + "/san"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:log_path=" + d + "/san"
        cmd = list(wrapper) + [exe, "--case", case.name, "--seed", str(self.seed), "--from", str(frm), "--to", str(to),
                               "--log", log, "--scratch", scratch, "--cpu", str(cpu)] + list(extra)
        if self.tier == "thorough":
            cmd.append("--thorough")
        errf = open(d + "/err", "wb")
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=errf, env=e, cwd=scratch,
                               timeout=max(900, cpu * (to - frm) * 4))
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -999
        errf.close()
        ev = []
        if os.path.exists(log):
            with open(log, errors="replace") as f:
                ev = [l.rstrip("\n") for l in f if l.endswith("\n")]
        san = ""
        for p in sorted(glob.glob(d + "/san*")):
            san += open(p, errors="replace").read()
        with open(d + "/err", errors="replace") as f:
            err = f.read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, ev, san, err[-4000:], " ".join(cmd)

    @staticmethod
    def crash_key(rc, last_x, san, err):
        """kind and place of an abnormal end, independent of line numbers and addresses"""
        frame = "?"
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", san):
            if "/repo/c3/" in m.group(2) or "/c3/lib_" in m.group(2):
                frame = m.group(1)
                break
        m = re.search(r"runtime error: (.*)", san)
        a = re.search(r"AddressSanitizer: (\S+(?: \S+)?)", san)
        s = re.search(r"Assertion [`'](.*)' failed", err)
        fn = re.search(r": (\w+): Assertion", err) or re.search(r": [^:]*?(\w+)\([^:]*: Assertion", err)
        if m:
            k = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*|'[^']*'", "N", m.group(1))
            return "ubsan:%s:%s" % (frame, k[:70])
        if s:
            return "assert:%s:%s" % (fn.group(1) if fn else frame, s.group(1)[:60])
        if a:
            return "asan:%s:%s" % (a.group(1).rstrip(":"), frame)
        if "ThreadSanitizer" in san:
            t = re.search(r"ThreadSanitizer: (.*?) \(pid", san)
            return "tsan:%s:%s" % (t.group(1) if t else "?", frame)
        if last_x:
            return "exit-called"
        return "died:rc=%d" % rc

    def add(self, key, msg, case, it, mode, extra):
        with self.lock:
            if key not in self.viol:
                self.viol[key] = (msg, case, it, mode, list(extra))

    # ------------------------------------------------------------ a range of iterations, surviving crashes
    def shard(self, exe, case, frm, to, mode, accept, extra=(), env=None, digslot=None, cpu=25):
        """accept(kind,key): does this violation count for the property?  kind in value|leak|crash|hang"""
        cur = frm
        while cur < to:
            with self.lock:
                if self.stop.get(case.name, 0) >= 4:
                    return
            if time.time() > self.deadline:
                with self.lock:
                    self.inconclusive.append("%s %d-%d not run: time budget" % (case.name, cur, to))
                return
            rc, ev, san, err, cmd = self.exec_(exe, case, cur, to, "", mode, extra, env, cpu)
            lastb, laste, hang, xit, done = None, None, False, False, False
            for l in ev:
                t = l.split(" ", 4)
                if t[0] == "B":
                    lastb = int(t[2])
                elif t[0] == "V":
                    _, _, it, key, msg = t
                    kind = "leak" if key in ("leak", "fdleak") else "value"
                    if accept(kind, key):
                        self.add("%s|%s" % (case.name, key), msg, case, int(it), mode, extra)
                        with self.lock:
                            self.stop[case.name] = self.stop.get(case.name, 0) + 1
                elif t[0] == "E":
                    f = l.split(" ", 7)
                    laste = int(f[2])
                    sig = f[7] if len(f) > 7 else ""
                    with self.lock:
                        self.iters += 1
                        self.checks += int(f[3])
                        pc = self.percase.setdefault(case.name, [0, 0])
                        pc[0] += 1
                        pc[1] += int(f[3])
                        if int(f[3]) or mode in ("leak", "det"):
                            k = (case.name, sig)
                            self.sigs[k] = self.sigs.get(k, 0) + 1
                            if len(self.samples) < 400 and self.sigs[k] == 1:
                                self.samples.append({"case": case.name, "iteration": laste, "shape": sig,
                                                     "oracle_evaluations": int(f[3]), "digest": f[5]})
                    if digslot is not None:
                        with self.lock:
                            digslot[(case.name, laste)] = f[5]
                elif t[0] == "C":
                    with self.lock:
                        self.counters[t[1]] = self.counters.get(t[1], 0) + int(t[2])
                elif t[0] == "H":
                    hang = True
                elif t[0] == "X":
                    xit = True
            if rc == 0 and not san:
                return
            if lastb is None:
                with self.lock:
                    self.inconclusive.append("%s: harness did not start (rc=%d) %s" % (case.name, rc, err[-300:]))
                return
            if "hard rss limit" in san or "hard rss limit" in err:
                key, kind = "memory-exhausted", "hang"
            elif hang or rc == -999:
                # confirm alone, with a larger budget, before believing it
                rc2, ev2, _, _, _ = self.exec_(exe, case, lastb, lastb + 1, "", mode, extra, env, cpu * 4)
                if any(l.startswith("H ") for l in ev2):
                    key, kind = "hang", "hang"
                    with self.lock:
                        self.stop[case.name] = 99
                else:
                    cur = lastb + 1
                    continue
            else:
                key, kind = self.crash_key(rc, xit, san, err), "crash"
            if accept(kind, key):
                msg = "abnormal end in iteration %d: %s | %s" % (lastb, key, (san or err)[-1500:].replace("\n", " / "))
                self.add("%s|%s" % (case.name, key), msg, case, lastb, mode, extra)
                with self.lock:
                    self.stop[case.name] = self.stop.get(case.name, 0) + 1
            else:
                with self.lock:
                    self.stop[case.name] = self.stop.get(case.name, 0) + 0.5
                    self.counters["abnormal-ends-not-counted-here"] = self.counters.get("abnormal-ends-not-counted-here", 0) + 1
            cur = lastb + 1


def split(n, k):
    k = max(1, min(n, k))
    b = [n * i // k for i in range(k + 1)]
    return [(b[i], b[i + 1]) for i in range(k) if b[i + 1] > b[i]]


def main():
    if len(sys.argv) < 2:
        print("usage: check.py Pxx [--case NAME]")
        return 2
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mult = float(os.environ.get("VERIF_MULT", "20" if tier == "quick" else "60"))
    t0 = time.time()
    try:
        exe = vbuild.build("asan")
        exe_t = vbuild.build("tsan") if prop == "P23" else None
    except vbuild.BuildError as e:
        print("BUILD ERROR\n" + str(e))
        return 2
    run = Run(prop, tier, seed)
    try:
        return check(run, prop, tier, seed, mult, exe, exe_t, t0, only)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def order(tasks):
    """Spread the shards so that a run cut short by the time budget has still touched every case."""
    return [tasks[i] for r in range(4) for i in range(r, len(tasks), 4)] if len(tasks) > 3 else tasks


# extra quick-tier iterations for the properties whose workloads are cheap
DEPTH = {"P03": 3, "P04": 2, "P06": 4, "P07": 12, "P08": 12, "P09": 6, "P10": 5, "P11": 20, "P12": 8,
         "P13": 20, "P14": 8, "P15": 3, "P16": 2, "P17": 6, "P18": 3, "P19": 3, "P20": 10, "P22": 15,
         "P24": 8, "P25": 5, "P26": 20, "P27": 30, "P28": 20}


def check(run, prop, tier, seed, mult, exe, exe_t, t0, only):
    out = subprocess.run([exe, "--list"], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    if out.returncode:
        print("harness --list failed: " + out.stderr[-500:])
        return 2
    cases = [Case(l) for l in out.stdout.splitlines() if "|" in l]
    if only:
        cases = [c for c in cases if c.name == only]
    scale = DEPTH.get(prop, 1.0) if tier == "quick" and "VERIF_MULT" not in os.environ else 1.0
    n_of = lambda c: max(1, int((c.nq if tier == "quick" else c.nt) * mult * scale))
    tasks = []                      # (weight, fn)
    mine = [c for c in cases if prop in c.props]
    # a share of every case, for the cross-cutting monitors
    def share(c, f):
        n = n_of(c)
        return n if prop in c.props else max(min(n, 4), int(n * f))
    dig = {}

    def accept_behaviour(kind, key):
        return True if kind != "leak" else False

    if prop == "P01":
        acc = lambda kind, key: kind in ("crash", "hang")
        for c in cases:
            for a, b in split(share(c, 1.0 if tier == "quick" else 0.7), 4):
                tasks.append(lambda c=c, a=a, b=b: run.shard(exe, c, a, b, "value", acc))
    elif prop == "P02":
        acc = lambda kind, key: kind == "leak" or (kind == "crash" and any(m in key for m in MEMKINDS))
        for c in cases:
            if c.noleak:
                continue
            for a, b in split(share(c, 0.5), 3):
                tasks.append(lambda c=c, a=a, b=b: run.shard(exe, c, a, b, "leak", acc, extra=["--leak"]))
    elif prop == "P23":
        fills = [(0x00, 0x00), (0xff, 0xff)] if tier == "quick" else [(0, 0), (0xff, 0xff), (0x41, 0x3f), (0x7f, 0x80)]
        slots = [dict() for _ in fills]
        acc0 = lambda kind, key: False
        for c in cases:
            if c.nodet:
                continue
            n = share(c, 0.3)
            for a, b in split(n, 2):
                for k, (mf, sf) in enumerate(fills):
                    env = {"ASAN_EXTRA": "max_malloc_fill_size=1000000000:malloc_fill_byte=%d" % mf}
                    tasks.append(lambda c=c, a=a, b=b, k=k, sf=sf, env=env: run.shard(
                        exe, c, a, b, "det", acc0, extra=["--stackfill", str(sf)], env=env, digslot=slots[k]))
        for c in mine:               # thread-isolation workloads under ThreadSanitizer
            if c.name.startswith("threads"):
                for a, b in split(n_of(c), 4):
                    tasks.append(lambda c=c, a=a, b=b: run.shard(exe_t, c, a, b, "tsan", accept_behaviour))
    else:
        for c in mine:
            for a, b in split(n_of(c), NPROC):
                tasks.append(lambda c=c, a=a, b=b: run.shard(exe, c, a, b, "value", accept_behaviour))
    budget = float(os.environ.get("VERIF_BUDGET", "450" if tier == "quick" else "2700"))
    skipped = [0]

    def timed(t):                    # on a slow machine: fewer iterations rather than no answer
        if time.time() - t0 > budget:
            skipped[0] += 1
        else:
            t()
    with ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(timed, t) for t in order(tasks)]
        for f in futs:
            f.result()
    compared = 0
    if prop == "P23":
        keys = set(slots[0])
        for s in slots[1:]:
            keys &= set(s)
        byname = {c.name: c for c in cases}
        bad = []
        for k in sorted(keys):
            compared += 1
            vals = [s[k] for s in slots]
            if len(set(vals)) > 1:
                bad.append(k)
        for nm, it in bad[:50]:
            run.add("%s|nondeterministic" % nm, "iteration %d: outputs depend on the contents of fresh memory "
                    "(digests %s)" % (it, [s[(nm, it)] for s in slots]), byname[nm], it, "det", [])
        run.counters["digest-comparisons"] = compared
    # ------------------------------------------------------------ verdict
    known = []
    kf = VERIF + "/known_findings.jsonl"
    if os.path.exists(kf):
        known = [json.loads(l) for l in open(kf) if l.strip() and not l.startswith("#")]
    listed = {k["key"]: k for k in known if k.get("status") == "known" and prop in k["properties"]}
    new, old = [], []
    for key, v in sorted(run.viol.items()):
        (old if key in listed else new).append((key, v))
    for k, ent in sorted(listed.items()):
        if any(o[0] == k for o in old):
            print("KNOWN-FINDING: property=%s %s" % (prop, ent["what"]))
    rdir = VERIF + "/replay"
    for key, (msg, case, it, mode, extra) in new:
        os.makedirs(rdir, exist_ok=True)
        p = "%s/%s-%s.txt" % (rdir, prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:100])
        with open(p, "w") as f:
            f.write("property %s\nkey %s\nmonitor %s\n%s\n\nreplay (after python3 /verif/vbuild.py asan):\n"
                    "cd /tmp && ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=print_stacktrace=1 /verif/build/h-asan-* --case %s --seed %d --from %d --to %d %s%s\n"
                    % (prop, key, mode, msg, case.name, seed, it, it + 1, " ".join(extra), " --thorough" if tier == "thorough" else ""))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s: %s" % (key, msg[:700]))
    distinct = len(run.sigs)
    nsam = run.samples
    step = max(1, len(nsam) // 12)
    title = ""
    try:
        title = load_props()[prop]["title"]
    except Exception:
        pass
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": run.iters,
            "distinct_nontrivial": distinct,
            "rule": "one evaluation = one generated workload (case x iteration) executed on the real library and judged by its "
                    "oracles; non-trivial = at least one oracle was evaluated (leak and determinism monitors: the workload ran to "
                    "its end under the monitor); distinct = different (case, shape signature: function classes, dimension, ranks, sizes, "
                    "options drawn)",
            "samples": nsam[::step][:14],
            "oracle_evaluations": run.checks,
            "per_case": {k: {"iterations": v[0], "oracle_evaluations": v[1]} for k, v in sorted(run.percase.items())},
            "counters": dict(sorted(run.counters.items())),
            "shards_skipped_for_time": skipped[0],
            "inconclusive": run.inconclusive[:20],
            "known_findings_seen": [k for k, _ in old],
        },
        "assumptions": ["reference BLAS/LAPACK and libm are correct to their documented accuracy",
                        "regenerated Legendre/Hermite linearisation tables (gen/gen_tables.py) stand in for the missing headers"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "title": title,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d evaluations, %d oracle evaluations, %d distinct shapes, %d cases, %d violations, %.1fs" % (
        prop, tier, seed, run.iters, run.checks, distinct, len(run.percase), len(new), time.time() - t0))
    if new:
        return 1
    if run.inconclusive or run.iters == 0 or distinct < 2 or (prop == "P23" and compared == 0):
        print("INCONCLUSIVE: " + "; ".join(run.inconclusive[:5]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
