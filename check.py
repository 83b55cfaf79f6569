#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree, searches for a violation of
one property and writes the evidence file.

  check.py --property P01 [--tier quick|thorough]   exit 0: held, 1: VIOLATION
  check.py --replay FILE                            exit 1: reproduced
  check.py --build                                  build only
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys
import tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("ETR_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.path.join(HERE, ".build")
NCPU = max(1, min(8, len(os.sched_getaffinity(0))))
WRAP = ["memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock",
        "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
SUT = ["-std=c++20", "-O1", "-w", "-fsanitize=thread", "-DSIDE_SUT", "-I" + INC, "-I" + SIM]
MDL = ["-std=c++20", "-O1", "-w", "-DSIDE_MDL", "-I" + SIM]
# number of simulated runs and limit in seconds
RUNS = {"quick": 120000, "thorough": 3000000}
SLOW = {"P10": 4, "P11": 4, "P04": 2}  # these need several executions per run
LIMIT = {"quick": 200, "thorough": 1500}


def fail(text):
    print("ERROR " + text)
    sys.exit(2)


def source_hash():
    h = hashlib.sha256()
    for root in (INC, SIM):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as s:
                    h.update(s.read())
    h.update(repr((SUT[:5], MDL[:4], WRAP)).encode())
    return h.hexdigest()[:24]


def units():
    out = []
    for f in sorted(os.listdir(SIM)):
        if not (f == "world.cpp" or (f.startswith("ops_") and f.endswith(".cpp"))):
            continue
        with open(os.path.join(SIM, f)) as s:
            parts = sorted(set(re.findall(r"PART == (\d+)", s.read())), key=int)
        for p in parts or [None]:
            out.append((f, p))
    return out


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    return r.returncode, r.stdout


def build():
    """Returns the directory with the simulator."""
    key = source_hash()
    final = os.path.join(BUILD, key)
    if os.path.exists(os.path.join(final, "sim")):
        return final
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        jobs = {}
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for f, p in units():
                b = f[:-4] + ("_" + p if p is not None else "")
                d = ["-DPART=" + p] if p is not None else []
                src = os.path.join(SIM, f)
                for side, flags in (("s", SUT), ("m", MDL)):
                    o = os.path.join(tmp, b + "_" + side + ".o")
                    jobs[(b, side)] = (o, ex.submit(
                        run, ["g++"] + flags + d + ["-c", src, "-o", o]))
            for f in ("rt", "sim", "mcall"):
                o = os.path.join(tmp, f + ".o")
                jobs[(f, "")] = (o, ex.submit(
                    run, ["g++", "-std=c++20", "-O2", "-c", os.path.join(SIM, f + ".cpp"),
                          "-o", o]))
        objs, dropped, errors = [], [], {}
        bad = set()
        for (b, side), (o, fut) in jobs.items():
            rc, text = fut.result()
            if rc:
                bad.add(b)
                errors[b] = text
                if side != "s" or b.startswith("world"):
                    fail("%s (%s) does not compile:\n%s" % (b, side, text[-3000:]))
        for (b, side), (o, fut) in jobs.items():
            if b not in bad:
                objs.append(o)
        for b in sorted(bad):
            m = re.search(r"^.*error:.*$", errors[b], re.M)
            dropped.append({"unit": b, "error": m.group(0)[:300] if m else ""})
        rc, text = run(["g++", "-no-pie", "-o", os.path.join(tmp, "sim")] + sorted(objs) +
                       ["-Wl,--wrap=" + w for w in WRAP] + ["-lpthread"])
        if rc:
            fail("link: " + text[-3000:])
        for o in objs:
            os.unlink(o)
        with open(os.path.join(tmp, "dropped.json"), "w") as s:
            json.dump(dropped, s)
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.exists(os.path.join(final, "sim")):
                raise
        # keep a few builds only
        old = sorted((d for d in os.listdir(BUILD) if d != key),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]:
            if time.time() - os.path.getmtime(os.path.join(BUILD, d)) > 3600:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        return final
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings():
    """Lines `finding: property=<id> kind=<kind> op=<op> match=<regex> | what`"""
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as s:
        for line in s:
            m = re.match(r"finding: property=(\S+) kind=(\S+) op=(\S+) match=(.*?) \| (.*)",
                         line.strip())
            if m:
                out.append(m.groups())
    return out


def replay_once(sim, path):
    r = subprocess.run([sim, "--replay", path], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True, errors="replace")
    return r.returncode, r.stdout


def check(prop, tier, seed, runs=None):
    t0 = time.time()
    d = build()
    tbuild = time.time() - t0
    sim = os.path.join(d, "sim")
    rep = os.path.join(HERE, "replays")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    nruns = runs or RUNS[tier] // SLOW.get(prop, 1)
    fd, stats = tempfile.mkstemp(suffix=".json", dir=rep)
    os.close(fd)
    total = None
    verdict, reported, findings = 0, None, []
    start = 0
    search_wall = 0.0
    unstable = []
    while True:
        r = subprocess.run(
            [sim, "--property", prop, "--seed", str(seed), "--runs", str(nruns - start),
             "--from", str(start), "--limit", str(LIMIT[tier] - search_wall), "--workers",
             str(NCPU), "--outdir", rep, "--stats", stats],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            with open(stats) as s:
                st = json.load(s)
        except (OSError, ValueError):
            fail("the simulator ended with %d\n%s" % (r.returncode, r.stdout[-2000:]))
        search_wall += st["wall"]
        if total is None:
            total = st
        else:
            for k, v in st.items():
                if k == "opstats":
                    for o, c in v.items():
                        t = total["opstats"].setdefault(o, [0, 0, 0, 0])
                        total["opstats"][o] = [x + y for x, y in zip(t, c)]
                elif isinstance(v, (int, float)) and k not in ("rc", "vrun"):
                    total[k] = max(total[k], v) if k in ("states", "interleavings") \
                        else total[k] + v
        if st["rc"] == 0:
            break
        if st["rc"] == 1:
            path = st["replay"]
            codes = [replay_once(sim, path) for _ in range(2)]
            if [c for c, _ in codes] != [1, 1] or codes[0][1] != codes[1][1]:
                unstable.append((path, codes))
            else:
                ops = re.findall(r"^op \d+ (\S+)", open(path).read(), re.M)
                hit = None
                for k in known_findings():
                    if k[0] == prop and k[1] == st["kind"] and ops and \
                            k[2] in ops and re.search(k[3], st["text"]):
                        hit = k
                if not hit:
                    verdict, reported = 1, (path, st["kind"], st["text"])
                    break
                if hit not in findings:
                    findings.append(hit)
                os.unlink(path)
            start = st["vrun"] + 1
            if start >= nruns or search_wall >= LIMIT[tier] or len(unstable) > 3:
                break
            continue
        fail(st["error"] or r.stdout[-2000:])
    os.unlink(stats)
    samples = []
    for k in range(3):
        r = subprocess.run([sim, "--property", prop, "--seed", str(seed), "--from", str(k),
                            "--one"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, errors="replace")
        samples.append(r.stdout.strip().split("\n"))
    with open(os.path.join(d, "dropped.json")) as s:
        dropped = json.load(s)
    threads = prop in ("P10", "P11")
    sw = max(search_wall, 1e-6)
    if threads:
        ev, dn = total["runs"], min(int(total["interleavings"]), total["runs"])
        rule = ("One evaluation is a simulated run: 2-4 callers with generated programs, "
                "executed without and then with preemptions at memory accesses and calls. "
                "Counted as distinct and non-trivial: different sequences of (caller, "
                "operation, number of its steps) at the switches of a run.")
    else:
        ev, dn = total["ops"], min(int(total["states"]), total["ops"])
        rule = ("One evaluation is an operation of a generated history on the real library, "
                "after which all objects are compared or checked. Counted as distinct and "
                "non-trivial: different contents and shapes of all objects after an "
                "operation (linear counting of hashes).")
    swept = {o: c for o, c in total["opstats"].items()}
    cover = {
        "evaluations": int(ev), "distinct_nontrivial": int(dn), "rule": rule,
        "samples": samples,
        "simulated_runs": total["runs"], "executions": total["children"],
        "seeds_per_hour": int(total["runs"] / sw * 3600),
        "runs_per_hour": int(total["runs"] / sw * 3600),
        "simulated_time": {"unit": "scheduler steps (instrumented memory accesses, calls "
                                   "and allocations of the real library)",
                           "steps": total["steps"]},
        "operations": {"executed": total["ops"], "accepted": total["op_ok"],
                       "rejected": total["op_err"], "unspecified": total["op_skip"]},
        "allocations": total["allocs"],
        "faults": {"allocation failed": total["f_alloc"],
                   "of these several in a row": total["f_burst"],
                   "operations failed at every allocation in turn": total["sweeps"],
                   "caller abandoned after a failure": total["f_abandon"],
                   "stream write failed or was short": total["f_stream"],
                   "preemptions": total["f_switch"]},
        "distinct": {"states": int(max(0, total["states"])),
                     "interleavings": int(max(0, total["interleavings"]))},
        "operations_by_kind": len(swept),
        "least_executed": sorted(((sum(c[:2]), o) for o, c in swept.items()))[:5],
        "components": {"real": "all of /repo/include, compiled with scheduling points at "
                               "each memory access",
                       "stub": "operator new/delete (arena), std::cout/std::cerr buffers, "
                               "thread scheduling, mutexes and guards of static objects"},
        "units_dropped": dropped,
        "build_s": round(tbuild, 1), "search_s": round(search_wall, 1),
    }
    ev_file = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL(prop),
        "coverage": cover,
        "assumptions": [
            "the arena allocator and the wrapped functions behave like those of a platform",
            "the reference model (sim/model.h) states the intended result",
            "g++ 13, -O1: behaviour of other compilers is not examined"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if verdict else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as s:
        json.dump(ev_file, s, indent=1)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    print("%s %s: %d runs, %d operations, %d faults, %.0f s (build %.0f s)%s" % (
        prop, tier, total["runs"], total["ops"],
        total["f_alloc"] + total["f_stream"] + total["f_switch"], search_wall, tbuild,
        ", dropped " + " ".join(u["unit"] for u in dropped) if dropped else ""))
    if verdict:
        path, kind, text = reported
        print("%s: %s" % (kind, text))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unstable:
        fail("not reproducible: " + repr(unstable)[:3000])
    return 0


def LEVEL(prop):
    return "fault_enumeration" if prop == "P02" else "exploration"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.build:
        print(build())
        return 0
    if a.replay:
        rc, text = replay_once(os.path.join(build(), "sim"), os.path.abspath(a.replay))
        print(text, end="")
        return rc if rc in (0, 1) else 2
    if not re.fullmatch(r"P\d\d", a.property or ""):
        fail("which property?")
    return check(a.property, a.tier, a.seed, a.runs)


if __name__ == "__main__":
    sys.exit(main())
