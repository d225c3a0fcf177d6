#!/usr/bin/env python3
"""Decide one property by seeded simulation of pgBackRest.

  check.py PROP [--tier=quick|thorough] [--time=SECONDS] [--seed=N]
  check.py --replay FILE            run a replay file, compare with what it says to expect

exit 0: the property held on everything explored; exit 1 + "VIOLATION property=.. replay=.." otherwise; 2: error of the check.
"""
import json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sim"))
sys.dont_write_bytecode = True
import build as simbuild  # noqa: E402

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
QUICK = 40.0
THOROUGH = 1500.0

REAL = ["pgBackRest command line, configuration, commands, storage/posix, remote and local protocol, compression, encryption, locking, info files, manifest (all objects of src/pgbackrest, built from /repo)",
        "OpenSSL, zlib, lz4, zstd, bzip2, libxml2 (host libraries, called by the real code)"]
STUB = ["operating system: processes, scheduler, signals, pipes, file system with a durable view, clocks, malloc, randomness (sim/os.cpp)",
        "ssh transport (simulated byte pipes between hosts)", "PostgreSQL and libpq: cluster files, WAL, archiver, backup functions, recovery (sim/pg.cpp)"]


# --------------------------------------------------------------------------------------------------------------------------------
def simrun(exe, plan, timeout=400, trace=None):
    """Run plan text in a fresh process. Returns dict(cls, viol, hash, crashed, text)"""
    os.makedirs(os.path.join(ROOT, ".build", "tmp"), exist_ok=True)
    f = os.path.join(ROOT, ".build", "tmp", "plan.%d" % os.getpid())
    with open(f, "w") as h:
        h.write(plan)
    cmd = [exe, "run", f] + (["--trace=" + trace] if trace else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        t = p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        t = "crashed status=timeout\n"
    finally:
        os.unlink(f)
    return parseRes(t)


def parseRes(t):
    r = {"cls": "", "viol": "", "hash": "", "sched": "", "crashed": "", "text": t, "plan": ""}
    m = re.search(r"^class (.*)$", t, re.M)
    if m:
        r["cls"] = m.group(1)
    m = re.search(r"^viol (.*)$", t, re.M)
    if m:
        r["viol"] = m.group(1)
    m = re.search(r"^hash=(\S+) sched=(\S+)", t, re.M)
    if m:
        r["hash"], r["sched"] = m.groups()
    m = re.search(r"^crashed (.*)$", t, re.M)
    if m:
        r["crashed"] = m.group(1)
        r["cls"] = "crash/" + m.group(1)
        r["viol"] = "the simulated program corrupted its process or never gave up the CPU: " + m.group(1)
    i = t.find("plan\n")
    if i >= 0:
        r["plan"] = t[i + 5:]
    return r


# --------------------------------------------------------------------------------------------------------------------------------
class Plan:
    def __init__(self, text):
        self.head, self.cfg, self.ops, self.faults = [], [], [], []
        for l in text.split("\n"):
            if not l or l[0] in "#":
                continue
            k = l.split(" ", 1)[0]
            {"cfg": self.cfg, "op": self.ops, "fault": self.faults}.get(k, self.head).append(l)
        self.head = [h for h in self.head if h.split(" ")[0] in ("pgbackrest-sim-replay", "prop", "seed")]

    def text(self):
        return "\n".join(self.head + self.cfg + self.ops + self.faults) + "\n"

    def copy(self):
        return Plan(self.text())

    def dropOp(self, i):
        p = self.copy()
        del p.ops[i]
        out = []
        for f in p.faults:
            m = re.search(r" op=(-?\d+)", f)
            o = int(m.group(1))
            if o == i:
                continue
            if o > i:
                f = f.replace(" op=%d" % o, " op=%d" % (o - 1), 1)
            out.append(f)
        p.faults = out
        return p


def minimise(exe, text, cls, budget, log):
    end = time.time() + budget
    cur = Plan(text)
    tries = 0

    def same(p):
        nonlocal tries
        tries += 1
        return simrun(exe, p.text())["cls"] == cls

    changed = True
    while changed and time.time() < end:
        changed = False
        for i in reversed(range(len(cur.faults))):
            if time.time() > end:
                break
            p = cur.copy()
            del p.faults[i]
            if same(p):
                cur, changed = p, True
        for i in reversed(range(len(cur.ops))):
            if time.time() > end:
                break
            p = cur.dropOp(i)
            if p.ops and same(p):
                cur, changed = p, True
        for i in reversed(range(len(cur.cfg))):
            if time.time() > end:
                break
            p = cur.copy()
            del p.cfg[i]
            if same(p):
                cur, changed = p, True
    # shrink numeric op arguments
    for i in range(len(cur.ops)):
        for m in list(re.finditer(r" (n|ms|tries)=(\d+)", cur.ops[i])):
            if time.time() > end:
                break
            v = int(m.group(2))
            for nv in (1, v // 2):
                if 0 < nv < v:
                    p = cur.copy()
                    p.ops[i] = p.ops[i].replace(m.group(0), " %s=%d" % (m.group(1), nv), 1)
                    if same(p):
                        cur = p
                        break
    log.append("minimised with %d replays to %d ops, %d faults, %d settings" % (tries, len(cur.ops), len(cur.faults), len(cur.cfg)))
    return cur.text()


# --------------------------------------------------------------------------------------------------------------------------------
def known(prop):
    """Entries of known-findings.txt for this property: [(kind, rest)]"""
    out = []
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"(finding|fixed): property=(\S+) (.*)$", l.strip())
            if m and m.group(2) == prop:
                out.append((m.group(1), m.group(3)))
    except OSError:
        pass
    return out


def search(exe, prop, tier, seed, secs):
    d = os.path.join(ROOT, ".build", "tmp", "%s.%d" % (prop, os.getpid()))
    os.makedirs(d, exist_ok=True)
    ps = []
    for w in range(WORKERS):
        o = os.path.join(d, "w%d" % w)
        ps.append((o, subprocess.Popen([exe, "batch", "--prop=" + prop, "--tier=" + tier, "--seed=%d" % (seed * 1000000 + w + 1), "--stride=%d" % WORKERS,
                                        "--time=%g" % secs, "--out=" + o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    # the first violation ends the search
    end = time.time() + secs + 500
    hit = None
    while any(p.poll() is None for _, p in ps) and time.time() < end:
        time.sleep(0.2)
        for o, p in ps:
            if p.poll() is not None and os.path.exists(o):
                t = open(o, "rb").read().decode("utf8", "replace")
                if "\nviol " in t or "\ncrashed " in t or t.startswith("crashed "):
                    hit = True
        if hit:
            time.sleep(1.0)
            break
    for _, p in ps:
        if p.poll() is None:
            p.terminate()
    for _, p in ps:
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    runs, seeds = [], 0
    for o, _ in ps:
        if not os.path.exists(o):
            continue
        t = open(o, "rb").read().decode("utf8", "replace")
        for blk in t.split("\x02\n"):
            if not blk.startswith("seed "):
                continue
            seeds += 1
            for r in blk.split("\x01\n"):
                if "plan\n" in r:
                    runs.append(r)
        os.unlink(o)
    os.rmdir(d)
    return runs, seeds


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    o = dict(x[2:].split("=", 1) if "=" in x else (x[2:], "1") for x in sys.argv[1:] if x.startswith("--"))
    t0 = time.time()
    exe = simbuild.build()
    if "replay" in o:
        text = open(a[0]).read()
        exp = re.search(r"^expect class=(\S+) hash=(\S+)", text, re.M)
        r = simrun(exe, text, trace=o.get("trace"))
        print("class %s\nhash %s\n%s" % (r["cls"], r["hash"], r["viol"].replace("|", "\n")))
        if exp:
            print("expected class %s hash %s: %s" % (exp.group(1), exp.group(2), "reproduced exactly" if (r["cls"], r["hash"]) == exp.groups() else "NOT reproduced"))
        return 1 if r["cls"] else 0
    prop = a[0]
    tier = o.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(o.get("seed") or os.environ.get("VERIF_SEED") or "1")
    secs = float(o.get("time") or (THOROUGH if tier == "thorough" else QUICK))

    for kind, rest in known(prop):
        if kind == "finding":
            m = re.match(r"plan=(\S+) class=(\S+) (.*)$", rest)
            if m:
                r = simrun(exe, open(os.path.join(ROOT, m.group(1))).read())
                print("KNOWN-FINDING: property=%s %s%s" % (prop, m.group(3), "" if r["cls"] == m.group(2) else " [listed history no longer fails]"))
            else:
                print("KNOWN-FINDING: property=%s %s" % (prop, rest))
    sys.stdout.flush()

    runs, seeds = search(exe, prop, tier, seed, secs)
    ts = time.time() - t0
    # aggregate
    virt = steps = switches = syscalls = procs = segv = 0
    hashes, scheds, fk, fs, probes, sites = set(), set(), {}, {}, {}, set()
    nontriv = set()
    bad = []
    lost = {"lostent": 0, "lostdata": 0, "torn": 0}
    for r in runs:
        m = re.search(r"^hash=(\S+) sched=(\S+)", r, re.M)
        if m:
            hashes.add(m.group(1))
            scheds.add(m.group(2))
            if re.search(r"^probe ", r, re.M):
                nontriv.add(m.group(1))
        m = re.search(r"^stat (.*)$", r, re.M)
        if m:
            d = dict(x.split("=") for x in m.group(1).split())
            virt += int(d["virt"]); steps += int(d["steps"]); switches += int(d["switches"]); syscalls += int(d["syscalls"]); procs += int(d["procs"]); segv += int(d["segv"])
            for k in lost:
                lost[k] += int(d[k])
        head = r[:r.index("plan\n")]
        for k, v in re.findall(r"^faultk (\S+)=(\d+)$", head, re.M):
            fk[k] = fk.get(k, 0) + int(v)
        for k, v in re.findall(r"^faults (\S+)=(\d+)$", head, re.M):
            fs[k] = fs.get(k, 0) + int(v)
        for k, v in re.findall(r"^probe (\S+)=(\d+)$", head, re.M):
            probes[k] = probes.get(k, 0) + int(v)
        for w in re.findall(r"^where (.*)$", head, re.M):
            sites.add(w)
        if re.search(r"^(viol|crashed) ", head, re.M):
            bad.append(r)
    notes, viols, rc = [], 0, 0
    # determinism gate on a sample of this batch: fresh process, same result hash
    det = {"replayed": 0, "identical": 0}
    good = [r for r in runs if r not in bad]
    for k in range(0, min(len(good), 6 if tier == "quick" else 40)):
        r = parseRes(good[(k * 7919) % len(good)])
        x = simrun(exe, r["plan"])
        det["replayed"] += 1
        det["identical"] += x["hash"] == r["hash"] and not x["cls"]
    if det["identical"] != det["replayed"]:
        notes.append("determinism gate failed")
        rc = 2
    if bad:
        rc = 2
        for r in bad[:4]:
            p = parseRes(r)
            one, two = simrun(exe, p["plan"]), simrun(exe, p["plan"])
            if not one["cls"] or one["cls"] != two["cls"] or one["hash"] != two["hash"] or (p["cls"] and one["cls"] != p["cls"]):
                notes.append("violation %s was not reproduced exactly (%s / %s)" % (p["cls"], one["cls"], two["cls"]))
                continue
            text = p["plan"]
            if one["crashed"] != "status=timeout":
                text = minimise(exe, text, one["cls"], 60 if tier == "quick" else 240, notes)
            fin = simrun(exe, text)
            os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
            sd = re.search(r"^seed (\d+)", text, re.M).group(1)
            path = os.path.join(ROOT, "replay", "%s-%s.plan" % (prop, sd))
            msg = fin["viol"].replace("|", "\n")
            with open(path, "w") as h:
                h.write(text + "expect class=%s hash=%s\n" % (fin["cls"], fin["hash"]) + "".join("# %s\n" % l for l in msg.split("\n")))
                h.write("".join("# fault fired: %s\n" % w for w in re.findall(r"^where (.*)$", fin["text"], re.M)))
            print("%s\n%s" % (fin["cls"], msg[:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            viols, rc = 1, 1
            break
    wall = time.time() - t0
    samples = []
    for r in runs[:1] + runs[len(runs) // 2:len(runs) // 2 + 1]:
        samples.append({"result": r[:r.index("plan\n")][:1500], "plan": r[r.index("plan\n") + 5:].split("\n")})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": viols,
          "coverage": {
              "evaluations": len(runs), "distinct_nontrivial": len(nontriv),
              "rule": "one evaluation = one simulated execution of a generated history (configuration, operations, schedule and faults all derived from the seed); distinct by the hash of the complete event log (every system call, result and scheduling decision); non-trivial if at least one oracle or probe of the property was reached",
              "samples": samples, "seeds": seeds, "seeds_per_hour": round(seeds * 3600 / max(ts, 1)), "runs_per_hour": round(len(runs) * 3600 / max(ts, 1)),
              "simulated_seconds": round(virt / 1e6), "scheduling_steps": steps, "process_switches": switches, "simulated_system_calls": syscalls, "simulated_processes": procs,
              "faults_injected_by_kind": fk, "faults_injected_by_call": fs, "distinct_fault_sites": len(sites), "power_loss_effects": lost,
              "distinct_interleavings": len(scheds), "interleaving_measure": "hash of the sequence of (process, call) scheduling decisions",
              "probes": probes, "process_crashes_seen": segv, "determinism_replays": det, "components_real": REAL, "components_stub": STUB, "notes": notes},
          "assumptions": ["the simulated kernel, file system and PostgreSQL behave like the real ones where pgBackRest depends on them (see DESIGN.md)",
                          "directory and file durability follow POSIX fsync semantics; renames are atomic"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print("%s: %d runs of %d seeds, %d distinct executions, %d interleavings, %.0f simulated s, faults %s, %.0f s%s" % (prop, len(runs), seeds, len(hashes), len(scheds), virt / 1e6, fk, wall, "" if not notes else " NOTES: " + "; ".join(notes)))
    if rc == 0 and not runs:
        print("no runs")
        rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
