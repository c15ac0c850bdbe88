#!/usr/bin/env python3
"""Decides one property: check.py ID [quick|thorough]. See DESIGN.md."""
import copy, json, mmap, os, shutil, signal, struct, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

WORKERS = 8

# Properties for which a call that dies or never returns is itself a violation, provided the same
# calls without faults do return.
NO_ANSWER = {"C01", "C02", "C03", "C05", "C07", "C08", "C09", "C10", "C13", "C14", "C15", "C21", "C19", "C22", "C24", "C26"}

# quick: (variant, runs); thorough: (variant, seconds).
def plan(prop, tier):
    swarm = prop in ("C01", "C02", "C03", "C04", "C13", "C14", "C21", "C22", "C24")
    if tier == "quick":
        n = QUICK[prop]
        p = [("all/preempt" if prop == "C08" else "all/checked", n)]
        if swarm and prop not in ("C14", "C21", "C22"):
            p.append(("none/checked", n // 4))
        if prop in ("C04", "C06", "C25"):
            p.append(("all/release", n // 2))
        if prop == "C25":
            p.append(("all/debugging", n // 4))
        return p, 200
    t = int(os.environ.get("SIM_THOROUGH_S", "1500"))
    p = [("all/preempt" if prop == "C08" else "all/checked", t)]
    if swarm:
        p += [("none/checked", t // 8)] + [(s + "/checked", t // 24) for s in SINGLES]
    if prop in ("C04", "C05", "C06", "C25"):
        p.append(("all/release", t // 2))
    if prop == "C25":
        p.append(("all/debugging", t // 2))
    return p, None

QUICK = {
    "C01": 1_200_000, "C02": 1_200_000, "C03": 3_000_000, "C04": 1_000_000, "C05": 200_000, "C06": 300_000, "C07": 16_000, "C08": 7_000,
    "C09": 400_000, "C10": 2_500_000, "C11": 120_000, "C12": 1_000_000, "C13": 900_000, "C14": 3_000_000, "C15": 600_000,
    "C21": 2_000_000, "C22": 2_000_000, "C19": 240_000, "C23": 80_000, "C24": 1_200_000, "C25": 300_000, "C26": 400_000,
}

REAL = [
    "the file-format crate, compiled from /repo's working tree (all of it: entry points, signature matching, readers)",
    "std::fs::File, BufReader and Cursor of the Rust standard library",
    "the kernel's open, lseek, read and close on real files in a scratch directory (C06, C07, C08, C09, C10, C11, C12, C15)",
]
STUB = [
    "the caller's stream: simulated Read + Seek over generated content",
    "faults at the C library boundary: open, read, pread, readv, lseek, close decided by the simulator",
    "clock, sleeping, random numbers, process id and environment lookups: simulated",
    "thread scheduling: real threads, one running at a time, switched by the simulator at stream operations and at any basic block; their futexes (C08)",
]


class Worker:
    def __init__(self, exe, none, prop, seed, w, count, wall, base):
        self.exe, self.prop, self.seed, self.w, self.count, self.wall = exe, prop, seed, w, count, wall
        self.dir = os.path.join(base, f"w{w}")
        self.hist = []  # first index of each process this worker ran
        self.page_path = os.path.join(base, f"page{w}")
        with open(self.page_path, "wb") as f:
            f.write(b"\0" * 4096)
        f = open(self.page_path, "r+b")
        self.page = mmap.mmap(f.fileno(), 4096)
        f.close()
        self.env = dict(os.environ, SIM_NONE=none or "")
        self.base = base
        self.segment = 0
        self.results, self.died, self.t0 = [], 0, time.time()
        self.p = None
        self.start(w)

    def get(self, i):
        return struct.unpack_from("<Q", self.page, 8 * i)[0]

    def put(self, i, v):
        struct.pack_into("<Q", self.page, 8 * i, v)

    def start(self, frm):
        self.segment += 1
        self.hist.append(frm)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.put(0, 0)
        self.out = os.path.join(self.base, f"out{self.w}-{self.segment}")
        self.hashes = os.path.join(self.base, f"hash{self.w}-{self.segment}")
        wall = max(1, int(self.wall - (time.time() - self.t0)))
        cmd = [self.exe, "work", "--prop", self.prop, "--seed", str(self.seed), "--worker", str(self.w), "--workers", str(WORKERS)]
        cmd += ["--from", str(frm), "--count", str(self.count), "--wall", str(wall)]
        cmd += ["--page", self.page_path, "--scratch", self.dir, "--hashes", self.hashes]
        self.o = open(self.out, "wb")
        self.p = subprocess.Popen(cmd, env=self.env, stdout=self.o, stderr=open(self.out + ".err", "wb"), start_new_session=True)
        self.seen, self.seen_t, self.seen_cpu, self.asleep = 0, time.time(), 0, 0

    def hung(self):
        """Is the current run computing without end, or waiting for ever?"""
        i = self.get(0)
        state, cpu = cpu_ticks(self.p.pid)
        now = time.time()
        if i != self.seen:
            self.seen, self.seen_t, self.seen_cpu = i, now, cpu
            return False
        if now - self.seen_t < 25:
            return False
        # Children (C07, C08) watch themselves; their processor time is counted once they end.
        return cpu - self.seen_cpu > 2000 or (now - self.seen_t > 120)


def run_variant(prop, seed, name, exe, none, count, wall, base):
    """-> (first event or None, stats, distinct hashes, wall seconds)."""
    t0 = time.time()
    os.makedirs(base)
    ws = [Worker(exe, none, prop, seed, w, count, wall, base) for w in range(WORKERS)]
    events, stats, hashes, aborted = [], [], set(), 0

    def event(w, i, cls, detail):
        events.append({"index": i, "class": cls, "detail": detail, "worker": w.w, "from": w.hist[-1]})
        for x in ws:
            if x.get(3) == 0 or x.get(3) > i:
                x.put(3, i)

    live = list(ws)
    while live:
        time.sleep(0.02)
        for w in list(live):
            rc = w.p.poll()
            if rc is None:
                if not w.hung():
                    continue
                kill_group(w.p)
                w.p.wait()
                rc = "hang"
            else:
                kill_group(w.p)
            w.o.close()
            lines = [json.loads(l) for l in open(w.out, "rb").read().decode(errors="replace").splitlines() if l.startswith("{") and l.endswith("}")]
            again = None
            for j in lines:
                if "viol" in j:
                    event(w, j["viol"]["index"], j["viol"]["class"], j["viol"]["detail"])
                if "stats" in j:
                    stats.append(j["stats"])
            if rc == 101:
                raise Broken(f"the simulator panicked at run {w.get(0) - 1}: " + open(w.out + ".err").read()[-2000:])
            if rc != 0:
                if w.get(0) == 0:
                    raise Broken(f"worker ended with {rc} before its first run: " + open(w.out + ".err").read()[-2000:])
                i = w.get(0) - 1
                cls = "does not return" if rc == "hang" else crash_class(rc)
                detail = open(w.out + ".err").read()[-300:].strip()
                if rc == "hang" or rc == 97 or rc < 0:
                    if judge_death(prop, seed, i, cls, exe, none, base, detail):
                        event(w, i, cls, detail)
                    else:
                        aborted += 1
                        if aborted > 400:
                            raise Broken(f"too many runs end the process ({cls})")
                        again = i + WORKERS
                else:
                    raise Broken(f"worker ended with status {rc}: {detail}")
            try:
                b = open(w.hashes, "rb").read()
                hashes.update(struct.unpack(f"<{len(b) // 8}Q", b))
            except OSError:
                pass
            if again is not None and again < count and time.time() - w.t0 < wall and (w.get(3) == 0 or again < w.get(3)):
                w.start(again)
            else:
                live.remove(w)
    if os.environ.get("SIM_EVENTS"):
        say(events)
    events.sort(key=lambda e: e["index"])
    s = merge(stats)
    s["aborted"] = aborted
    shutil.rmtree(base, ignore_errors=True)
    return (events[0] if events else None), s, hashes, time.time() - t0


def judge_death(prop, seed, i, cls, exe, none, base, detail):
    """A run ended its process or never came back. Is that a violation of this property?"""
    alloc = cls.startswith("allocation")
    if prop == "C06":
        return alloc
    if prop == "C04":
        return not alloc
    if prop == "C25":
        return "overflowed its stack" in detail
    if prop not in NO_ANSWER or alloc:
        return False
    g = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--index", str(i)], capture_output=True, env=dict(os.environ, SIM_NONE=none or ""))
    if g.returncode != 0:
        return False
    if prop == "C05":
        return cls == "does not return"
    ex = Exec(exe, none, base)
    r = ex(prop, [strip(json.loads(g.stdout))], timeout=90)
    return r["class"] != cls


def merge(stats):
    out = {"runs": 0, "skipped": 0, "calls": 0, "ops": 0, "sim_ns": 0, "nontrivial": 0, "max_peak": 0}
    for k in list(out):
        out[k] = sum(s[k] for s in stats) if k != "max_peak" else max([s[k] for s in stats] or [0])
    for k in ("extra", "families", "answers"):
        m = {}
        for s in stats:
            for a, b in s[k].items():
                m[a] = m.get(a, 0) + b
        out[k] = m
    for k in ("fired", "used"):
        out[k] = [sum(c) for c in zip(*[s[k] for s in stats])]
    d = 0
    for s in stats:
        d ^= s["digest"]
    out["digest"] = d
    return out


def gen(exe, none, prop, seed, i):
    g = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--index", str(i)], capture_output=True, env=dict(os.environ, SIM_NONE=none or ""))
    if g.returncode != 0:
        raise Broken("generating a scenario failed: " + g.stderr.decode(errors="replace")[-1000:])
    return json.loads(g.stdout)


def confirm_and_minimise(prop, seed, name, exe, none, ev, scratch):
    """-> replay dictionary. Raises Broken if the violation does not reproduce."""
    base = os.path.join(scratch, "min")
    os.makedirs(base, exist_ok=True)
    ex = Exec(exe, none, base)
    sc = gen(exe, none, prop, seed, ev["index"])
    cls = ev["class"]
    hang = cls == "does not return"
    tmo = 60 if hang else 90
    r = ex(prop, [sc], timeout=tmo)
    runs, tries = None, 0
    if r["class"] is not None:
        cls = r["class"]
        r2 = ex(prop, [sc], timeout=tmo)
        if (r2["class"], r2["digest"]) != (r["class"], r["digest"]):
            say(f"note: two executions differ: {r['class']} {r2['class']}")
        deadline = time.time() + (30 if not hang else 0)
        best, tries = shrink_scenario(sc, lambda t: ex(prop, [t], timeout=20)["class"] == cls, deadline)
        runs = [best]
    else:
        # Only after what this process did before: find which earlier runs it needs.
        idx = list(range(ev["from"], ev["index"], WORKERS))
        def bad(sub):
            r = ex(prop, [{"gen": [seed, i]} for i in sub] + [{"gen": [seed, ev["index"]]}], timeout=300)
            return r["class"] is not None
        # Bisect on a suffix first (cheap), then the whole.
        r = ex(prop, [{"range": [seed, ev["from"], ev["index"] + 1, WORKERS]}], timeout=600)
        if r["class"] is None:
            raise Broken(f"run {ev['index']} of {name} reported '{ev['class']}: {ev['detail']}', but does not reproduce")
        cls = r["class"]
        k, stop = 1, time.time() + 150
        while k < len(idx) and time.time() < stop and not bad(idx[-k:]):
            k *= 4
        keep = idx[-k:] if k < len(idx) and time.time() < stop else idx
        deadline = time.time() + 60
        chunk = max(1, len(keep) // 2)
        while time.time() < deadline:
            i, any_ = 0, False
            while i < len(keep) and time.time() < deadline:
                t = keep[:i] + keep[i + chunk :]
                tries += 1
                if bad(t):
                    keep, any_ = t, True
                else:
                    i += chunk
            if chunk == 1 and not any_:
                break
            chunk = max(1, chunk // 2)
        runs = [{"gen": [seed, i]} for i in keep] + [sc]
        if len(keep) > 5000:
            runs = [{"range": [seed, keep[0], keep[-1] + 1, WORKERS]}, sc]
        elif len(keep) <= 200:
            full = [gen(exe, none, prop, seed, i) for i in keep] + [sc]
            if ex(prop, full, timeout=120)["class"] is not None:
                runs = full
    last = ex(prop, runs, log=True, timeout=tmo if len(runs) == 1 else 300)
    if last["class"] is None:
        # Drawing a scenario may matter as well as running it.
        again = [sc] if len(runs) == 1 else runs[:-1] + [{"gen": [seed, ev["index"]]}]
        for again in (again, [{"range": [seed, ev["from"], ev["index"] + 1, WORKERS]}]):
            r = ex(prop, again, log=True, timeout=300)
            if r["class"] is not None:
                last, runs = r, again
                break
        else:
            raise Broken("the minimised scenario does not reproduce")
    return {
        "property": prop, "class": last["class"], "detail": last["detail"], "variant": name,
        "seed": seed, "index": ev["index"], "minimisation_steps": tries, "digest": last["digest"],
        "runs": runs, "trace": last["trace"][-400:],
    }


def known_findings():
    """The findings that are recorded rather than repaired: lines 'known: {"property", "class", "match", "what"}'."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            if l.startswith("known:"):
                out.append(json.loads(l[6:]))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    variants, cap = plan(prop, tier)
    names = [v for v, _ in variants]
    if prop == "C19":
        names += HELPERS
    if prop == "C26":
        names.append(NARROW)
    exes = build(sorted(set(names + ["none/checked"] if prop in ("C14", "C22") else names)))
    built = time.time() - t0
    none = exes.get("none/checked")
    os.environ["SIM_HELPERS"] = helpers(exes)
    scratch = scratch_dir()
    hit, per, alls, hashes, runs = None, [], [], set(), 0
    probe = subprocess.run([exes[names[0]], "probe"], capture_output=True, text=True)
    if probe.returncode != 0:
        raise Broken("a seam does not work:\n" + probe.stdout + probe.stderr)
    try:
        sim_t = 0
        for k, (v, amount) in enumerate(variants):
            if tier == "quick":
                count, wall = amount, cap
            else:
                count, wall = 1 << 62, amount
            ev, st, hs, w = run_variant(prop, seed, v, exes[v], none, count, wall, os.path.join(scratch, f"v{k}"))
            sim_t += w
            per.append({"build": v, "runs": st["runs"], "calls": st["calls"], "wall_s": round(w, 2), "digest": f"{st['digest']:016x}", "runs_ending_the_process": st["aborted"]})
            alls.append(st)
            hashes |= {(k, h) for h in hs} if len(variants) > 1 and False else hs
            if ev:
                hit = (v, ev, confirm_and_minimise(prop, seed, v, exes[v], none, ev, scratch))
                break
        samples = [gen(exes[names[0]], none, prop, seed, i) for i in range(3)]
        for s in samples:
            for c in s["calls"]:
                for g in c["content"]["segs"]:
                    if len(g[1]) > 160:
                        g[1] = g[1][:160] + f"... ({len(g[1]) // 2} bytes)"
                c["content"]["segs"] = c["content"]["segs"][:6]
        total = merge(alls)
        info = json.loads(subprocess.run([exes[names[0]], "info"], capture_output=True).stdout)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = None
    if hit:
        for f in known_findings():
            if f["property"] == prop and f["class"] == hit[2]["class"] and f["match"] in hit[2]["detail"]:
                known = f
    fam = total["families"]
    hours = max(sim_t, 1e-9) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": RULE[prop] + " Distinct: by a hash of the contents and of every operation and its outcome (for C08 the order in which threads ran).",
            "samples": samples,
            "calls": total["calls"], "operations": total["ops"], "skipped": total["skipped"],
            "runs_per_hour": int(total["runs"] / hours),
            "seeds_per_hour": int(total["runs"] / hours),
            "simulated_seconds": total["sim_ns"] // 1_000_000_000,
            "faults_injected": {k: v for k, v in zip(info["fired"], total["fired"] or [0] * len(info["fired"]))},
            "other_counts": total["extra"],
            "seams_consulted_by_the_code": dict(zip(["clock", "random", "environment"], total["used"] or [0, 0, 0])),
            "contents_by_family": dict(sorted(fam.items())),
            "distinct_answers": len(total["answers"]),
            "most_common_answers": dict(sorted(total["answers"].items(), key=lambda x: -x[1])[:25]),
            "max_stack_used" if prop == "C25" else "max_heap_held": total["max_peak"],
            "builds": per,
            "probe": probe.stdout.splitlines(),
            "real_components": REAL, "stub_components": STUB,
        },
        "assumptions": [
            "the simulator's stream obeys the Read and Seek contracts",
            "exploration: what was not drawn was not examined",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if hit and not known else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in known_findings():
        if f["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    print(f"{prop} {tier} seed {seed}: {total['runs']} runs, {total['calls']} calls, {len(hashes)} distinct, {ev['wall_s']} s (build {built:.1f} s)")
    if hit and not known:
        rp = hit[2]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{rp['index']}.json")
        with open(path, "w") as f:
            json.dump(rp, f, indent=1)
        print(f"{rp['class']}: {rp['detail']}")
        for l in rp["trace"][-25:]:
            print("  " + l)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


RULE = {
    "C01": "One stream content, one way of splitting its reads; non-trivial: at least one read was short.",
    "C02": "One stream content with interrupted reads; non-trivial: at least one interruption was delivered.",
    "C03": "One stream content with failing operations or bad sectors; non-trivial: at least one error was delivered.",
    "C04": "One hostile or fixture content with any contract-abiding misbehaviour of the stream; each run counts.",
    "C05": "A container with more items than the limit and a twin differing beyond it, or an endless stream; each run counts.",
    "C06": "One content with hostile declared sizes, often on an endless stream, under a counting allocator; each run counts.",
    "C07": "A sequence of calls in a fresh process, each compared with the same call in a fresh process; non-trivial: two or more calls.",
    "C08": "Calls on 2 to 130 threads under the scheduler, each compared with the same call alone; non-trivial: more switches than threads.",
    "C09": "One real file with short, interrupted reads, interrupted opens, file-system limits; non-trivial: a fault was delivered or the file is over 16 MiB.",
    "C10": "One real file with failing system calls; non-trivial: an error was delivered.",
    "C11": "One call repeated eight times, ended in any way, with heap and handle accounting; each run counts.",
    "C12": "One real file and a snapshot of its directory before and after, modifying calls recorded; each run counts.",
    "C13": "A signature-only content with a dead, different or missing tail; each run judged counts.",
    "C14": "A container changed while it is read; non-trivial: a change was made after the prefix had been read.",
    "C21": "A container with very large skipped parts and its twin with small ones; non-trivial: over 64 KiB.",
    "C22": "One file as a crash or a damaged device leaves it, read without failures; each run counts.",
    "C23": "Two to five calls, one inside the stream operations of another, some in destructors or at the end of a thread; each sequence counts.",
    "C24": "One stream whose reader panics at an operation; non-trivial: the panic was raised.",
    "C25": "One content, often hostile or endless, with failures; the stack below the call is painted before and inspected after; each run counts.",
    "C26": "One content, often beyond 2 or 4 GiB long, and one stream behaviour, in a build with 64-bit and in one with 32-bit pointers; each run judged counts.",
    "C19": "One content and stream behaviour, in builds with all readers, with none, with the one of its family only and with another one only; each run judged counts.",
    "C15": "The same bytes in two environments: latency, clocks, random numbers, variables, directory, thread; each run counts.",
}

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        say("check broken:", e)
        sys.exit(2)
