#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   search for violations of one property in simulated runs of /repo's working tree
check.py --build                        only build all flavours of the simulator
check.py --determinism [COUNT]          run COUNT seeds of every property twice in every flavour and compare everything observed
check.py --replay FILE                  run one replay file again (exit 1 if it violates its property)

Exit 0: the property held on everything explored. Exit 1: `VIOLATION property=<id> replay=<path>` was printed.
Exit 2: the check itself failed."""
import atexit, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
OUT = os.path.join(HERE, "out")
FLAVOURS = {"checked": [], "shipped": ["--release"], "plain": ["--profile", "plain", "--features", "plain"]}
PROFILE_DIR = {"checked": "debug", "shipped": "release", "plain": "plain"}
SECONDS = {"quick": 40, "thorough": 600}
RUNNING = set()  # replays under way
WORKERS = max(3, min(8, os.cpu_count() or 2))


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def sim(flavour):
    return os.path.join(HARNESS, "target", flavour, PROFILE_DIR[flavour], "sim")


def build():
    """All flavours, in parallel, against /repo's working tree."""
    procs = []
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    for fl, args in FLAVOURS.items():
        cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", os.path.join(HARNESS, "target", fl)] + args
        procs.append((fl, subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for fl, p in procs:
        out = p.communicate()[0]
        if p.returncode != 0:
            print(out[-6000:])
            die(f"the {fl} simulator does not build against /repo")


def shares(prop):
    """How many of the processes search with which flavour."""
    plain = 2 if prop == "C05" and WORKERS >= 6 else 1
    checked = (WORKERS - plain + 1) // 2
    return {"checked": checked, "shipped": max(1, WORKERS - plain - checked), "plain": plain}


class Worker:
    def __init__(self, flavour, prop, base, first, stride, seconds, tier, outdir):
        self.flavour, self.first = flavour, first
        env = dict(os.environ, VERIF_TIER=tier)
        cmd = [sim(flavour), "batch", str(prop), str(base), str(first), str(1 << 40), str(stride), str(seconds), outdir]
        self.p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
        self.lines = []
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        for l in self.p.stdout:
            try:
                self.lines.append(json.loads(l))
            except ValueError:
                self.lines.append({"kind": "harness", "what": l.strip()[:300]})

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def of(self, kind):
        return [x for x in self.lines if x.get("kind") == kind]


def exec_trace(path, timeout=600):
    fl = "checked"
    for l in open(path):
        if l.startswith("flavour "):
            fl = l.split()[1]
    p = subprocess.Popen([sim(fl), "exec", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
    RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    finally:
        end(p)
    viol = None
    for l in out.splitlines():
        try:
            d = json.loads(l)
            if d.get("kind") == "violation":
                viol = d
        except ValueError:
            pass
    return p.returncode, viol, fl


def end(p):
    """Ends a replay and the process it forked."""
    RUNNING.discard(p)
    if p.poll() is None:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()


def report(prop, trace, cls, msg, seed, flavour, once=False):
    """Minimises a failing trace, confirms that the replay file reproduces it, prints the violation.
    `once`: the trace is short already and runs for minutes."""
    os.makedirs(OUT, exist_ok=True)
    dst = os.path.join(OUT, f"{prop}-{flavour}-{seed:016x}.trace")
    tmp = dst + ".min"
    best = trace
    try:
        if once:
            raise OSError
        subprocess.run([sim(flavour), "min", trace, tmp, cls, "60"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        rc, v, _ = exec_trace(tmp)
        if rc == 1 and v:
            best, msg = tmp, v["msg"]
    except (subprocess.SubprocessError, OSError):
        pass
    if best != dst:
        shutil.copyfile(best, dst)
    rcs = [exec_trace(dst)[0] for _ in range(1 if once else 2)]
    if os.path.exists(tmp):
        os.remove(tmp)
    print(f"{prop} [{cls}] {msg}")
    print(f"found with seed {seed:#x}, {flavour} build; replayed with exit {rcs}; again: python3 check.py --replay {dst}")
    print(f"VIOLATION property={prop} replay={dst}", flush=True)


def determinism(count):
    """One digest per run covers the trace, every observation and every event counter; two processes must agree."""
    runs = bad = 0
    for fl in FLAVOURS:
        for p in range(1, 17):
            cmd = [sim(fl), "digest", str(p), "7", "0", str(count)]
            two = [subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for _ in range(2)]
            x, y = (q.communicate()[0].splitlines() for q in two)
            runs += len(x)
            d = [i for i in range(max(len(x), len(y))) if x[i:i + 1] != y[i:i + 1]]
            bad += len(d)
            for i in d[:3]:
                print(f"C{p:02} {fl}: {x[i:i + 1]} then {y[i:i + 1]}")
    print(f"{runs} runs executed twice, {bad} differ")
    return 2 if bad or not runs else 0


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--build":
        build()
        return 0
    if a[0] == "--determinism":
        build()
        return determinism(int(a[1]) if len(a) > 1 else 60)
    if a[0] == "--replay":
        build()
        rc, v, fl = exec_trace(a[1])
        print(json.dumps(v) if v else f"no violation ({fl} build)")
        return rc
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if not re.fullmatch(r"C\d\d", prop) or tier not in SECONDS:
        die(__doc__)
    num = int(prop[1:])
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build()
    t_build = time.time() - t0
    seconds = int(os.environ.get("SIM_SECONDS", SECONDS[tier]))
    work = os.path.join(OUT, f"work-{prop}-{tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    # the shortest known traces first: every defect that was ever found for this property
    replayed = 0
    reg = os.path.join(HERE, "regress")
    for f in sorted(os.listdir(reg)) if os.path.isdir(reg) else []:
        if f.startswith(prop + "-"):
            rc, v, fl = exec_trace(os.path.join(reg, f))
            if rc == 2:
                die(f"cannot replay {f}")
            replayed += 1
            if rc == 1:
                violation = dict(v, seed=int(v.get("seed", 0)), flavour=fl, file=os.path.join(reg, f))
                report(prop, violation["file"], v["class"], v["msg"], violation["seed"], fl)
                evidence(prop, tier, base, t0, t_build, [], 1, work, replayed)
                return 1

    # beside the search, the deep check runs the few written histories of some 2^32 operations
    worn, results = [], []
    wdir = os.path.join(HERE, "worn")
    if tier == "thorough" and os.path.isdir(wdir):
        def run_one(f):
            try:
                results.append((f,) + exec_trace(f))
            except subprocess.TimeoutExpired:
                results.append((f, 2, None, ""))
        for f in sorted(os.listdir(wdir)):
            if f.startswith(prop + "-"):
                t = threading.Thread(target=run_one, args=(os.path.join(wdir, f),), daemon=True)
                t.start()
                worn.append(t)

    # each flavour has seeds of its own
    share = shares(prop)
    ws = [Worker(fl, num, base, i + (k << 41), share[fl], seconds, tier, work) for k, fl in enumerate(FLAVOURS) for i in range(share[fl])]
    deadline = time.time() + seconds + 120
    hit = None
    while True:
        hits = [(x["seed"], w, x) for w in ws for x in w.of("violation")]
        if hits:
            hit = hits[0]
            break
        if all(w.p.poll() is not None for w in ws):
            for w in ws:
                w.t.join()
            hits = [(x["seed"], w, x) for w in ws for x in w.of("violation")]
            hit = hits[0] if hits else None
            break
        if time.time() > deadline:
            for w in ws:
                w.kill()
            die("a simulator process did not end")
        time.sleep(0.1)
    if hit:
        # let the others finish the run they are in, for the counts
        for w in ws:
            w.kill()
            w.t.join()
        _, w, x = hit
        report(prop, x["file"], x["class"], x["msg"], x["seed"], w.flavour)
    else:
        for t in worn:
            t.join()
        replayed += len(worn)
        for f, rc, v, fl in results:
            if rc == 1 and not hit:
                hit = v
                report(prop, f, v["class"], v["msg"], 1, fl, once=True)
            elif rc not in (0, 1):
                die(f"cannot replay {f}")
    harness = [x for w in ws for x in w.of("harness")]
    evidence(prop, tier, base, t0, t_build, ws, 1 if hit else 0, work, replayed)
    shutil.rmtree(work, ignore_errors=True)
    if hit:
        return 1
    if harness:
        die("simulator errors: " + json.dumps(harness[:3]))
    bad = [w for w in ws if w.p.returncode != 0 or not w.of("stats")]
    if bad:
        die(f"{len(bad)} simulator processes ended without a result")
    runs = sum(s["runs"] for w in ws for s in w.of("stats"))
    if runs == 0:
        die("nothing was run")
    print(f"{prop}: held on {runs} simulated runs ({time.time() - t0:.0f} s, seed {base}, {tier})")
    return 0


def evidence(prop, tier, base, t0, t_build, ws, violations, work, replayed):
    stats = [s for w in ws for s in w.of("stats")]
    probes, messages = {}, [0, 0, 0]
    for s in stats:
        for k, v in s["probes"].items():
            probes[k] = max(probes.get(k, 0), v) if k.startswith("peak") else probes.get(k, 0) + v
        messages = [x + y for x, y in zip(messages, s["messages"])]
    runs = sum(s["runs"] for s in stats)
    secs = max([s["seconds"] for s in stats] or [0.0])
    n = 1 << 17  # bytes per bitmap
    maps = [0, 0, 0]
    acc = [0, 0, 0]
    for f in os.listdir(work) if os.path.isdir(work) else []:
        if f.startswith("maps-"):
            b = open(os.path.join(work, f), "rb").read()
            for i in range(3):
                acc[i] |= int.from_bytes(b[i * n:(i + 1) * n], "little")
    maps = [x.bit_count() for x in acc]
    meta = json.load(open(os.path.join(HERE, "tools", "rules.json")))
    samples = []
    for fl, idx in (("checked", 0), ("shipped", 1 << 41), ("plain", 2 << 41)):
        try:
            r = subprocess.run([sim(fl), "record", str(int(prop[1:])), str(base), str(idx)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=60, env=dict(os.environ, VERIF_TIER=tier))
            ls = r.stdout.splitlines()
            samples.append("\n".join(ls[:45] + ([f"... {len(ls) - 45} more lines"] if len(ls) > 45 else [])))
        except (subprocess.SubprocessError, OSError):
            pass
    faults = {k: v for k, v in probes.items() if any(w in k for w in meta["fault_words"])}
    faults.update({"client messages delayed or reordered": messages[0], "client messages duplicated": messages[1],
                   "client messages lost": messages[2]})
    ev = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": maps[2],
            "rule": meta["how"] + " Non-trivial for this property: " + meta["nontrivial"].get(prop, "at least one operation ran.") +
                    " Distinct: by a 64-bit hash of the whole schedule (operations, order, faults, allocator policy), counted in a"
                    " 2^20-bit map, so an underestimate.",
            "samples": samples,
            "runs_per_hour": round(runs / secs * 3600) if secs else 0,
            "seeds_per_hour": round(runs / secs * 3600) if secs else 0,
            "search_seconds": round(secs, 1),
            "simulated_time_steps": sum(s["trace_ops"] for s in stats),
            "simulated_time_note": "the library has no clock: simulated time is the number of scheduled operations",
            "faults_injected": faults,
            "events_reached": probes,
            "distinct_states": maps[0],
            "distinct_states_measure": "hash of (alive count, population of every component set, length of every order group) at each full look at a store",
            "distinct_interleavings": maps[1],
            "failures_owned_by_other_properties": sum(s["foreign"] for s in stats),
            "earlier_failing_traces_replayed": replayed,
            "real_components": meta["real"],
            "stubbed_components": meta["stub"],
            "flavours": {fl: sum(s["runs"] for s in stats if s["flavour"] == fl) for fl in FLAVOURS},
            "build_seconds": round(t_build, 1),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    atexit.register(lambda: [end(p) for p in list(RUNNING)])
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        die("interrupted")
