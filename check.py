#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py PROPERTY [--tier quick|thorough] [--seconds S] [--runs N] [--seed S] [--workers N] [--no-min]
  check.py replay FILE        runs a replay file again, with a trace
  check.py determinism [N]    runs N plans of every property twice, with different numbers of workers, and compares
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import build as builder
import gen

QUICK = {}     # property -> runs; default below
QUICK_RUNS = 15000
QUICK_SECONDS = 50
THOROUGH_SECONDS = 780
FINDINGS = os.path.join(VERIF, "known_findings.txt")
KEEP = ("property", "scenario", "seed", "net", "data")


class Server:
    def __init__(self, binary, scratch, cpu):
        self.args = [binary, "server", "--scratch", scratch] + (["--cpu", str(cpu)] if cpu is not None else [])
        self.start()

    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env={"LC_ALL": "C", "PATH": "/usr/bin:/bin"})

    def run(self, text):
        data = text.encode()
        try:
            self.p.stdin.write(b"%d\n" % len(data) + data)
            self.p.stdin.flush()
            n = int(self.p.stdout.readline())
            return parse(self.p.stdout.read(n).decode(errors="replace"))
        except (OSError, ValueError):
            self.p.kill()
            self.p.wait()
            self.start()
            return dict(verdict="error", kind="server", msg="the server ended", hash="", counters={}, steps=0, switches=0, simns=0, sched="", phases=0)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
            self.p.wait()


def parse(out):
    r = {}
    lines = out.split("\n")
    i = 0
    msg = []
    keys = ("verdict", "kind", "msg", "hash", "sched", "steps", "switches", "simns", "phases", "counters")
    cur = None
    for i, l in enumerate(lines):
        k, _, v = l.partition(" ")
        if k in keys and (cur != "msg" or k == "hash"):
            r[k] = v
            cur = k
        elif k == "devs" and cur == "counters":
            r["devs"] = None if v == "-1" else lines[i + 1:]
            break
        elif cur == "msg":
            r["msg"] += "\n" + l
    for k in ("steps", "switches", "simns", "phases"):
        r[k] = int(r.get(k) or 0)
    r["counters"] = counters(r.get("counters", ""))
    if "devs" in r and r["devs"] is not None:
        r["devs"] = [x for x in r["devs"] if x.startswith("dev ")]
    return r


def counters(s):
    c = {}
    for x in s.split():
        k, _, v = x.rpartition("=")
        c[k] = c.get(k, 0) + int(v)
    return c


def fresh(binary, text, scratch, verbose=False):
    """one run in a process of its own"""
    with tempfile.NamedTemporaryFile("w", dir=scratch, suffix=".plan", delete=False) as f:
        f.write(text)
    a = [binary, "run", f.name, "--scratch", scratch] + (["-v"] if verbose else [])
    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=None if verbose else subprocess.DEVNULL, env={"LC_ALL": "C", "PATH": "/usr/bin:/bin"})
    os.unlink(f.name)
    return parse(p.stdout.decode(errors="replace")[p.stdout.decode(errors="replace").find("verdict "):])


def signature(r):
    return (r.get("verdict"), r.get("kind"))


def without_comments(text):
    return [l for l in text.split("\n") if l.strip() and not l.startswith("#")]


def minimise(binary, text, want, scratch, seconds):
    """smallest plan (schedule included) with the same kind of violation"""
    srv = Server(binary, scratch, None)
    end = time.time() + seconds
    tried = 0

    def bad(lines):
        nonlocal tried
        tried += 1
        return signature(srv.run("\n".join(lines) + "\n")) == want

    lines = without_comments(text)
    # the schedule as explicit preemptions instead of a policy
    r = srv.run("\n".join(lines + ["wantdevs"]) + "\n")
    if r.get("devs") is not None:
        explicit = [l for l in lines if not l.startswith("sched ")] + r["devs"]
        if bad(explicit):
            lines = explicit
    # no preemption at all?
    short = [l for l in lines if not l.startswith("dev ")]
    if len(short) < len(lines) and bad(short):
        lines = short

    def fixed(l):
        return l.split(" ", 1)[0] in KEEP

    n = 2
    while time.time() < end:
        idx = [i for i, l in enumerate(lines) if not fixed(l)]
        if not idx:
            break
        size = max(1, len(idx) // n)
        progress = False
        for k in range(0, len(idx), size):
            drop = set(idx[k:k + size])
            cand = [l for i, l in enumerate(lines) if i not in drop]
            if time.time() > end:
                break
            if bad(cand):
                lines = cand
                progress = True
                break
        if progress:
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(idx), n * 2)
    # smaller numbers
    changed = True
    while changed and time.time() < end:
        changed = False
        for i, l in enumerate(lines):
            if fixed(l) or l.startswith("dev "):
                continue
            parts = l.split(" ")
            for j in range(1, len(parts)):
                if re.fullmatch(r"\d{2,}", parts[j]) and time.time() < end:
                    for v in (int(parts[j]) // 10, int(parts[j]) // 2):
                        cand = lines[:i] + [" ".join(parts[:j] + [str(v)] + parts[j + 1:])] + lines[i + 1:]
                        if bad(cand):
                            lines = cand
                            parts[j] = str(v)
                            changed = True
                            break
    srv.close()
    return "\n".join(lines) + "\n", tried


def findings():
    """known findings: property -> {key: text}"""
    res = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                res.setdefault(m[1], {})[m[2]] = m[3].strip()
    return res


class Campaign:
    def __init__(self, prop, binary, scratch, seed, workers, runs, seconds):
        self.prop, self.binary, self.scratch = prop, binary, scratch
        self.seed, self.runs, self.seconds = seed, runs, seconds
        self.lock = threading.Lock()
        self.next = 0
        self.done = 0
        self.totals = {}
        self.steps = self.switches = self.simns = self.multiphase = self.restarts = 0
        self.scheds, self.hashes = set(), set()
        self.bad = []
        self.errors = []
        self.samples = []
        self.faulty = 0
        self.known = {}
        self.stop = False
        self.workers = workers
        self.end = time.time() + seconds

    def index_seed(self, k):
        return self.seed * 10000000 + k

    def work(self, cpu):
        srv = Server(self.binary, self.scratch, cpu)
        while not self.stop and time.time() < self.end:
            with self.lock:
                k = self.next
                if k >= self.runs:
                    break
                self.next += 1
            s = self.index_seed(k)
            try:
                text = gen.plan(self.prop, s)
                r = srv.run(text)
            except Exception as e:
                text, r = "", parse("verdict error\nkind driver\nmsg %r\nhash 0\n" % e)
            self.record(s, text, r)
        srv.close()

    def record(self, s, text, r):
        with self.lock:
            self.done += 1
            self.steps += r["steps"]
            self.switches += r["switches"]
            self.simns += r["simns"]
            self.multiphase += r["phases"] > 1
            self.scheds.add(r["sched"])
            self.hashes.add(r["hash"])
            fault = False
            for k, v in r["counters"].items():
                self.totals[k] = self.totals.get(k, 0) + v
                fault = fault or k.startswith("fault.")
                if k.startswith("known."):
                    self.known.setdefault(k[6:], s)
            self.faulty += fault
            if r["verdict"] == "ok":
                if r.get("kind", "").startswith("other."):
                    self.totals[r["kind"]] = self.totals.get(r["kind"], 0) + 1
                if len(self.samples) < 3 and fault:
                    self.samples.append(dict(seed=s, plan=text.strip().split("\n"), steps=r["steps"], switches=r["switches"], hash=r["hash"], counters=r["counters"]))
            elif r["verdict"] in ("violation", "timeout"):
                self.bad.append((s, text, r))
                if len(self.bad) >= 4:
                    self.stop = True
                self.end = min(self.end, time.time() + 5)
            else:
                self.errors.append((s, text, r))
                if len(self.errors) > 20:
                    self.stop = True

    def go(self):
        t0 = time.time()
        cpus = sorted(os.sched_getaffinity(0))
        ts = [threading.Thread(target=self.work, args=(cpus[i % len(cpus)],)) for i in range(self.workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.wall = time.time() - t0


REAL = ["the whole library of /repo/src and /repo/include, compiled from the working tree with its release flags (-O3 -ffast-math -fopenmp) plus access instrumentation",
        "Boost.Serialization of the repository", "libstdc++ (streams, std::thread, filesystem, random engines)", "glibc", "a real file system, in a scratch directory per run"]
STUB = ["thread scheduler (one runnable thread at a time, chosen by the plan)", "mutexes, condition variables, futexes and thread creation", "clocks and sleeps (simulated time)",
        "std::random_device (seeded)", "results of file operations where a fault is injected", "operator new (guarded, may fail)", "ThreadSanitizer's runtime (ours: scheduling points, no race detection)",
        "in the control, data and some twin scenarios the first and last layers are wrapped by a recording layer, which replaces evaluation outputs where the plan scripts them"]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == "determinism":
        return determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 40)
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=min(8, len(os.sched_getaffinity(0))))
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    print("property %s, tier %s, seed %d" % (prop, a.tier, a.seed), flush=True)
    lock = open(os.path.join(VERIF, ".build.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    binary = builder.build()
    fcntl.flock(lock, fcntl.LOCK_UN)
    print("built in %.0f s" % (time.time() - t0), flush=True)
    scratch = tempfile.mkdtemp(prefix="snnsim.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        return decide(a, prop, binary, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, prop, binary, scratch, t0):
    quick = a.tier != "thorough"
    runs = a.runs or (QUICK.get(prop, QUICK_RUNS) if quick else 10 ** 9)
    seconds = a.seconds or (QUICK_SECONDS if quick else THOROUGH_SECONDS)
    c = Campaign(prop, binary, scratch, a.seed, a.workers, runs, seconds)
    c.go()
    known = findings().get(prop, {})
    unlisted = {k: s for k, s in c.known.items() if k not in known}
    for k, s in unlisted.items():
        c.bad.append((s, gen.plan(prop, s), dict(verdict="violation", kind="known." + k, msg="a finding that is not listed in known_findings.txt: " + k, hash="")))
    status, violations, unconfirmed = 0, 0, []
    for s, text, r in c.bad:
        one = fresh(binary, text, scratch)
        two = fresh(binary, text, scratch)
        if r["kind"].startswith("known."):
            ok = all(r["kind"] in x["counters"] for x in (one, two)) and one["hash"] == two["hash"]
        elif r["verdict"] == "timeout":
            ok = one["verdict"] == two["verdict"] == "timeout"
        else:
            ok = signature(one) == signature(r) == signature(two) and one["hash"] == two["hash"] == r["hash"]
        if not ok:
            unconfirmed.append(s)
            print("seed %d: %s/%s is not reproduced exactly (%s, %s)" % (s, r["verdict"], r["kind"], signature(one), signature(two)))
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            open(os.path.join(VERIF, "replays", "%s-%d-unconfirmed.plan" % (prop, s)), "w").write(text)
            continue
        violations += 1
        small, tried = text, 0
        if not a.no_min and not r["kind"].startswith("known.") and r["verdict"] != "timeout":
            small, tried = minimise(binary, text, signature(r), scratch, 40 if quick else 120)
        final = fresh(binary, small, scratch)
        again = fresh(binary, small, scratch)
        if r["kind"].startswith("known.") or signature(final) != signature(r) or final["hash"] != again["hash"]:
            small, final = text, one
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d.plan" % (prop, s))
        head = ["property %s, seed %d: %s" % (prop, s, r["kind"])] + final.get("msg", "").split("\n")
        head += ["expected: %s %s hash %s" % (final["verdict"], final["kind"], final["hash"]), "replay: ./check.py replay %s" % os.path.relpath(path, VERIF),
                 "minimised from %d to %d lines in %d runs" % (len(without_comments(text)), len(without_comments(small)), tried)]
        with open(path, "w") as f:
            f.write("".join("# %s\n" % h for h in head) + small)
        print("seed %d: %s: %s" % (s, final["kind"], final.get("msg", "")))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        status = 1
        break
    if status == 0 and unconfirmed:
        print("ERROR: a violation could not be reproduced")
        status = 2
    if c.done == 0:
        print("ERROR: no run")
        status = 2
    if c.errors:
        s, text, r = c.errors[0]
        print("ERROR: %d runs failed in the harness, e.g. seed %d: %s" % (len(c.errors), s, r.get("msg")))
        if status == 0:
            status = 2
    for k, s in sorted(c.known.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s (first seen with seed %d)" % (prop, known[k], s))
    faults = {k[6:]: v for k, v in sorted(c.totals.items()) if k.startswith("fault.")}
    probes = {k: v for k, v in sorted(c.totals.items()) if k.startswith(("probe.", "known."))}
    rate = c.done / max(c.wall, 1e-6) * 3600
    other = {k: v for k, v in sorted(c.totals.items()) if k.startswith("other.")}
    evidence = dict(
        property=prop, tier="quick" if quick else "thorough", seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=c.done, distinct_nontrivial=len(c.scheds) if False else len(c.hashes),
            rule="one evaluation is one simulated run of the real library, generated from its seed (gen.py, gen_%s); runs are distinct if the hash of their whole execution "
                 "(every scheduling point with its thread and kind, every file operation, every example presented) differs" % prop,
            samples=c.samples or [dict(note="no run with a fault")],
            runs_per_hour=int(rate), seeds="%d..%d" % (c.index_seed(0), c.index_seed(max(0, c.done - 1))),
            simulated_seconds=round(c.simns / 1e9, 3), scheduling_points=c.steps, context_switches=c.switches,
            distinct_interleavings=len(c.scheds), runs_with_faults=c.faulty, runs_with_process_restart=c.multiphase,
            faults_fired=faults, probes_reached=probes, file_operations={k[3:]: v for k, v in sorted(c.totals.items()) if k.startswith("op.")},
            violations_of_other_properties_seen=other, real_components=REAL, stubbed_components=STUB),
        assumptions=["sequentially consistent memory: one thread runs at a time, preempted only at instrumented accesses, system calls and synchronisation",
                     "a crash loses the process, not what the operating system has been given (no power failure)"],
        wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%d runs (%d distinct executions, %d interleavings) in %.0f s, %.0f runs/hour, %.1f simulated s; faults %s; probes %s%s"
          % (c.done, len(c.hashes), len(c.scheds), c.wall, rate, c.simns / 1e9, faults, probes, "; other properties %s" % other if other else ""))
    return status


def replay(path):
    binary = builder.build()
    text = open(path).read()
    scratch = tempfile.mkdtemp(prefix="snnsim.")
    try:
        r = fresh(binary, text, scratch, verbose=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("verdict %s %s\n%s\nhash %s" % (r["verdict"], r["kind"], r["msg"], r["hash"]))
    for l in text.split("\n"):
        if l.startswith("# expected"):
            print("recorded" + l[10:])
    return 1 if r["verdict"] in ("violation", "timeout") else 0


def determinism(n):
    binary = builder.build()
    scratches = [tempfile.mkdtemp(prefix="snnsim.", dir=d) for d in ("/dev/shm", "/dev/shm", None)]
    bad = total = 0
    try:
        results = []
        for (workers, pinned), scratch in zip(((8, True), (3, False), (16, False)), scratches):
            res = {}
            jobs = [(p, s) for p in sorted(gen.GEN) if re.fullmatch(r"C\d\d", p) for s in range(n)]
            lock = threading.Lock()

            def work(cpu):
                srv = Server(binary, scratch, cpu)
                while True:
                    with lock:
                        if not jobs:
                            break
                        p, s = jobs.pop()
                    r = srv.run(gen.plan(p, s))
                    with lock:
                        res[p, s] = (r["verdict"], r["kind"], r["hash"], r["steps"], r["simns"], r["msg"])
                srv.close()

            ts = [threading.Thread(target=work, args=(i % 8 if pinned else None,)) for i in range(workers)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            results.append(res)
        for k in results[0]:
            total += 1
            if not all(x[k] == results[0][k] for x in results):
                bad += 1
                print("differs:", k, [x[k] for x in results])
    finally:
        for d in scratches:
            shutil.rmtree(d, ignore_errors=True)
    print("%d plans, 3 times each (8 pinned, 3 and 16 unpinned workers, two file systems): %d differ" % (total, bad))
    return 1 if bad or total == 0 else 0


if __name__ == "__main__":
    sys.exit(main())
