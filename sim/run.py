"""check ID / replay FILE.  Exit 0: held on everything explored. 1: violation. 2: the machinery failed."""
import argparse, hashlib, json, os, random, re, select, struct, subprocess, sys, time, traceback
from collections import Counter
from . import build, shrink
from .props import ALL
from .world import ENAME, FXN, Lab, Overflow

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)


def scenario(prop, seed, i, pool, lab):
    sc = prop.gen(random.Random("%s/%s/%d" % (seed, prop.id, i)), pool, lab)
    if len(sc.get("nodes", ())) > 400 and sc.get("wpat"):
        # reports of thousands of files, written byte by byte, would take more steps than a run has
        sc["wpat"] = [max(x, 1000) if x > 0 else x for x in sc["wpat"]]
    return sc


class Stats:
    def __init__(self):
        self.c = Counter()
        self.faults = Counter()
        self.points = set()
        self.digests = set()
        self.nontrivial = set()
        self.samples = []
        self.max_steps = 0

    def add(self, prop, sc, rs, i):
        nt = prop.nontrivial(sc, rs)
        for r in rs:
            d = hashlib.blake2b(r.rawlog + r.out + r.ended.encode(), digest_size=8).digest()
            self.digests.add(d)
            if nt:
                self.nontrivial.add(d)
            self.max_steps = max(self.max_steps, r.steps)
            self.c["ended %s" % ("0" if r.ok else "abnormally" if r.signal else "nonzero")] += 1
            self.c["switches"] += r.switches
            seq = Counter()
            for e in r.events:
                seq[e.op] += 1
                if e.op == "event":
                    self.faults["concurrent change"] += 1
                elif e.fx:
                    k = "%s %s" % (e.op, FXN.get(e.fx, e.fx))
                    if e.fx == 1:
                        k = "%s %s" % (e.op, ENAME.get(e.err, e.err))
                    self.faults[k] += 1
                    self.points.add(hash((k, min(seq[e.op], 40), bool(r.out))) & 0xFFFFFFFF)
            mf = r.fault_fired - sum(1 for e in r.events if e.fx and e.op not in ("event", "malloc"))
            if any(f["op"] == "malloc" for f in sc.get("faults", [])) or "memlimit" in sc.get("cfg", {}) or "maxalloc" in sc.get("cfg", {}):
                self.faults["malloc fails"] += max(0, mf)
        if nt and len(self.samples) < 3 and i % 7 == 3:
            r = rs[0]
            self.samples.append({"index": i, "args": sc["args"], "entries": len(sc["nodes"]),
                                 "plan": {k: sc[k] for k in ("faults", "nf", "muts", "cfg", "rpat", "wpat", "env", "pre", "cut") if sc.get(k)},
                                 "ended": r.ended, "steps": r.steps, "stdout_bytes": len(r.out), "faults_fired": r.fault_fired + r.mut_fired})

    def dump(self):
        return {"c": dict(self.c), "faults": dict(self.faults), "points": sorted(self.points), "digests": [d.hex() for d in self.digests],
                "nontrivial": [d.hex() for d in self.nontrivial], "samples": self.samples, "max_steps": self.max_steps}


def worker(pid, seed, inp, outp, limit_samples=True):
    prop, lab, stats, trouble = ALL[pid], Lab(), Stats(), None
    try:
        while True:
            d = os.read(inp, 8)
            if len(d) < 8:
                break
            lo, hi = struct.unpack("<II", d)
            if lo == hi:
                break
            pool, found = prop.pool(seed, lo // prop.block), None
            n = 0
            for i in range(lo, hi):
                try:
                    sc = scenario(prop, seed, i, pool, lab)
                    bad, rs = prop.check(sc, lab)
                    stats.add(prop, sc, rs, i)
                except Overflow:
                    stats.c["too long to judge"] += 1
                    continue
                except Exception:
                    # a run the machinery cannot judge: keep looking for one that it can, report it if there is none
                    trouble = trouble or "index %d: %s" % (i, traceback.format_exc())
                    lab.close()
                    lab = Lab()
                    continue
                n += 1
                if bad:
                    found = {"index": i, "clause": bad[0][0], "text": bad[0][1], "scenario": sc}
                    break
            send(outp, {"lo": lo, "done": n, "found": found})
        send(outp, {"stats": stats.dump(), "totals": lab.totals, "runs": lab.runs, "trouble": trouble})
    except Exception:
        send(outp, {"error": traceback.format_exc()})
    finally:
        lab.close()


def send(fd, obj):
    data = json.dumps(obj).encode()
    data = struct.pack("<I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


class W:
    def __init__(self, pid, seed):
        a, self.inp = os.pipe()
        self.outp, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.inp)
            os.close(self.outp)
            for w in LIVE:
                os.close(w.inp)
                os.close(w.outp)
            code = 0
            try:
                worker(pid, seed, a, b)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(a)
        os.close(b)
        self.buf, self.busy = b"", None

    def give(self, lo, hi):
        self.busy = lo
        os.write(self.inp, struct.pack("<II", lo, hi))

    def messages(self):
        d = os.read(self.outp, 1 << 20)
        if not d:
            raise RuntimeError("a worker died")
        self.buf += d
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(json.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return out


LIVE = []


def explore(pid, seed, count, cap_s, workers=None):
    """runs indices 0..count-1; returns (done, lowest violation or None, merged statistics)"""
    prop = ALL[pid]
    t0 = time.time()
    LIVE[:] = []
    for _ in range(workers or WORKERS):
        LIVE.append(W(pid, seed))
    nxt, found, done, finished, stats = 0, None, 0, 0, []
    def feed(w):
        nonlocal nxt
        stop = nxt >= count or time.time() - t0 > cap_s or (found and nxt > found["index"])
        if stop:
            w.busy = None
            os.write(w.inp, struct.pack("<II", 0, 0))
        else:
            hi = min(count, nxt + prop.block)
            w.give(nxt, hi)
            nxt = hi
    for w in LIVE:
        feed(w)
    while finished < len(LIVE):
        ready, _, _ = select.select([w.outp for w in LIVE if not getattr(w, "end", False)], [], [], 120)
        if not ready:
            raise RuntimeError("no worker answers")
        for w in LIVE:
            if w.outp not in ready or getattr(w, "end", False):
                continue
            for m in w.messages():
                if "error" in m:
                    raise RuntimeError("worker: " + m["error"])
                if "stats" in m:
                    stats.append(m)
                    w.end = True
                    finished += 1
                else:
                    done += m["done"]
                    if m["found"] and (not found or m["found"]["index"] < found["index"]):
                        found = m["found"]
                    feed(w)
    for w in LIVE:
        os.close(w.inp)
        os.close(w.outp)
        os.waitpid(w.pid, 0)
    LIVE[:] = []
    m = merge(stats)
    m["trouble"] = next((s["trouble"] for s in stats if s.get("trouble")), None)
    return done, found, m


def merge(ms):
    out = {"c": Counter(), "faults": Counter(), "points": set(), "digests": set(), "nontrivial": set(), "samples": [], "max_steps": 0, "totals": Counter(), "runs": 0}
    for m in ms:
        s = m["stats"]
        out["c"].update(s["c"]); out["faults"].update(s["faults"])
        for k in ("points", "digests", "nontrivial"):
            out[k].update(s[k])
        out["samples"] += s["samples"]
        out["max_steps"] = max(out["max_steps"], s["max_steps"])
        out["totals"].update(m["totals"])
        out["runs"] += m["runs"]
    out["samples"] = sorted(out["samples"], key=lambda s: s["index"])[:4]
    return out


def known(pid):
    """committed findings of this property: [(regex on 'clause: text', description)]"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


REAL = {"dump": "elm-parser-dump (whole binary: clap, walkdir, nom, regex, Rust std)", "check": "elm-parser-check (whole binary)",
        "threads": "elm_parser library (file parser with nom, regex, std) called by harness threads"}
STUB = ["kernel: file system, descriptors, standard streams, clock, randomness, environment, process ids, memory limits, futexes and the choice of the running thread (sim/kernel.c)"]


def write_evidence(pid, tier, seed, planned, done, found, m, wall):
    prop = ALL[pid]
    d = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(m["nontrivial"]),
            "rule": prop.rule + ". Distinct: the complete recorded history (every system call with arguments, result and data, output, end) differs.",
            "samples": m["samples"],
            "planned_evaluations": planned,
            "simulated_runs": m["runs"],
            "distinct_histories": len(m["digests"]),
            "runs_per_hour": int(m["runs"] / wall * 3600) if wall else 0,
            "seeds_per_hour": int(done / wall * 3600) if wall else 0,
            "simulated_seconds": round(m["totals"].get("sim_ns", 0) / 1e9, 3),
            "simulated_steps": m["totals"].get("steps", 0),
            "longest_run_steps": m["max_steps"],
            "allocations": m["totals"].get("mallocs", 0),
            "faults_fired": dict(sorted(m["faults"].items())),
            "fault_kinds_fired": len(m["faults"]),
            "distinct_fault_points": len(m["points"]),
            "schedule_points": m["totals"].get("sched_points", 0),
            "schedule_points_at_shared_state": m["totals"].get("hot", 0),
            "thread_switches": m["c"].get("switches", 0),
            "ends": {k: v for k, v in m["c"].items() if k.startswith("ended")},
            "components_real": sorted(REAL.values()) if pid in ("C13",) else [REAL["threads"]] if pid == "C12" else [REAL["check"]] if pid == "C09" else [REAL["dump"], REAL["check"]],
            "components_stub": STUB,
        },
        "assumptions": ["the simulated kernel answers as Linux does for the calls these programs make", "what was not drawn was not explored: this is search, not proof"],
        "wall_s": round(wall, 2),
        "violations": 1 if found else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


def record(pid, seed, tier, found, lab):
    """the replay file of a violation: its seed, the minimised world and plan, and the history it produces"""
    prop = ALL[pid]
    bad, rs = prop.check(found["scenario"], lab)
    first = bad[0] if bad else (found["clause"], found["text"])
    return {"property": pid, "clause": first[0], "text": first[1], "seed": seed, "tier": tier, "index": found["index"],
            "reproduced": bool(bad), "digests": [r.digest() for r in rs], "ended": [r.ended for r in rs],
            "history": [repr(e) for e in rs[0].events[:400]], "stdout_tail": rs[0].out[-400:].decode("latin-1"),
            "stderr_tail": rs[0].errout[-400:].decode("latin-1"), "scenario": found["scenario"]}


def cmd_check(a):
    prop = ALL[a.id]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    build.build(prop_needs(a.id))
    count = a.count or (prop.thorough if tier == "thorough" else prop.quick)
    cap = a.cap or (1500 if tier == "thorough" else 200)
    skips = known(a.id)
    for _, text in skips:
        print("KNOWN-FINDING: property=%s %s" % (a.id, text))
    t1 = time.time()
    done, found, m = explore(a.id, seed, count, cap, a.workers)
    if found and any(k.search("%s: %s" % (found["clause"], found["text"])) for k, _ in skips):
        found = None
    wall = time.time() - t1
    write_evidence(a.id, tier, seed, count, done, found, m, wall)
    print("%s %s seed %d: %d scenarios (%d runs, %d distinct non-trivial histories, %d fault kinds fired) in %.1f s" % (
        a.id, tier, seed, done, m["runs"], len(m["nontrivial"]), len(m["faults"]), wall))
    if not found and m["trouble"]:
        print("the machinery failed: " + m["trouble"])
        return 2
    if not found:
        return 0
    print("found at index %d: %s: %s" % (found["index"], found["clause"], found["text"]))
    lab = Lab()
    small = dict(found, scenario=shrink.minimise(prop, found["scenario"], found["clause"], lab, time.time() + 40))
    rec = record(a.id, seed, tier, small, lab)
    if not rec["reproduced"]:
        rec = record(a.id, seed, tier, found, lab)
    lab.close()
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    name = "%s-%s.json" % (a.id, hashlib.sha256(json.dumps(rec["scenario"], sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join("replays", name)
    with open(os.path.join(VERIF, path), "w") as f:
        json.dump(rec, f, indent=1)
    print("minimised: %s: %s" % (rec["clause"], rec["text"]))
    p = subprocess.run([sys.executable, "-m", "sim.run", "replay", path], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("replay in a fresh process: %s" % ("the same history and violation" if "SAME HISTORY" in p.stdout else p.stdout.strip()[-600:]))
    print("VIOLATION property=%s replay=%s" % (a.id, path))
    return 1


def cmd_replay(a):
    rec = json.load(open(a.file))
    pid = rec["property"]
    build.build(prop_needs(pid))
    lab = Lab()
    bad, rs = ALL[pid].check(rec["scenario"], lab)
    lab.close()
    same = [r.digest() for r in rs] == rec["digests"]
    if a.verbose:
        for e in rs[0].events:
            print(e)
        print("stdout:", rs[0].out[-3000:].decode("utf-8", "replace"))
        print("stderr:", rs[0].errout.decode("utf-8", "replace"))
    print("SAME HISTORY" if same else "DIFFERENT HISTORY (other code than the one that produced the file?)")
    if not bad:
        print("no violation")
        return 0
    print("%s: %s" % bad[0])
    print("VIOLATION property=%s replay=%s" % (pid, a.file))
    return 1


def prop_needs(pid):
    need = {"C12": ("threads",), "C13": ("dump", "check", "threads")}.get(pid, ("dump", "check"))
    if pid in ("C01", "C04", "C09", "C25"):                # the parser called directly is a second opinion there
        need += ("threads?",)
    return need


def main():
    p = argparse.ArgumentParser()
    s = p.add_subparsers(dest="cmd", required=True)
    c = s.add_parser("check")
    c.add_argument("id", choices=sorted(ALL))
    c.add_argument("--tier")
    c.add_argument("--count", type=int)
    c.add_argument("--cap", type=float)
    c.add_argument("--workers", type=int)
    c = s.add_parser("replay")
    c.add_argument("file")
    c.add_argument("-v", "--verbose", action="store_true")
    a = p.parse_args()
    try:
        code = cmd_check(a) if a.cmd == "check" else cmd_replay(a)
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code) if code == 2 else sys.exit(code)


if __name__ == "__main__":
    main()
