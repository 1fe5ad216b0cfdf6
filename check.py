#!/usr/bin/env python3
"""check.py PROPERTY: decide one property by seeded simulation. See DESIGN.md.

VERIF_SEED chooses the batch of seeds, VERIF_TIER (quick or thorough) its size. Exit 0: held on everything explored.
Exit 1 with a line VIOLATION property=<id> replay=<file>: broken, and the file replays it (python3 replay.py <file>).
Any other exit: the check itself could not decide.
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
#        seeds in a quick batch, seeds in a thorough batch
SIZES = {"C01": (80000, 1500000), "C02": (18000, 500000), "C03": (70000, 1500000), "C04": (28000, 600000), "C05": (55000, 1000000),
         "C06": (9000, 300000), "C07": (9000, 300000), "C08": (25000, 500000), "C09": (70000, 1500000), "C10": (14000, 200000),
         "C11": (15000, 300000), "C12": (18000, 500000), "C13": (16000, 300000), "C14": (900, 30000), "C15": (32000, 600000)}
CAP = {"quick": 300, "thorough": 3000}  # seconds; a batch that hits it reports what it covered
RULE = {
    "C01": "one seeded history of API calls with a seeded heap; non-trivial if at least 6 calls took effect next to the model",
    "C02": "a seeded history replayed with seeded refusals of block requests; non-trivial if a refusal hit inside a library call",
    "C03": "a seeded history with damaged inputs; non-trivial if at least one damaged text reached the library",
    "C04": "a seeded history, without and with refused block requests; non-trivial if at least 6 calls took effect, or a refusal hit inside a call",
    "C05": "a seeded history over several allocators; non-trivial if one was released while others were live or a value was copied between allocators",
    "C06": "a seeded multi-thread history under a seeded schedule; non-trivial if a thread was preempted inside a library call",
    "C07": "seeded readers and copiers over one shared document under a seeded schedule; non-trivial if a thread was preempted inside a library call",
    "C08": "a seeded history, without and with refused block requests, every returned pointer tracked; non-trivial if at least 6 calls took effect, or a refusal hit inside a call",
    "C09": "a seeded history in which caller buffers are freed or overwritten at seeded moments; non-trivial if at least one was",
    "C10": "a seeded history, many in 16-bit size configurations or of long-lived allocators, without and with refused block requests; non-trivial if at least 6 calls took effect, or a refusal hit inside a call",
    "C11": "a seeded history (half of them with refused block requests) run through another API flavour; non-trivial if at least 6 calls took effect",
    "C12": "a seeded history, without and with refused block requests, every value serialised and re-parsed along the way; non-trivial if at least 6 calls took effect, or a refusal hit inside a call",
    "C14": "a seeded history over deeply nested documents, without and with refused block requests; non-trivial if at least 6 calls took effect, or a refusal hit inside a call",
    "C15": "a seeded history during which the locale of the process or of single threads is switched at seeded moments; non-trivial if a number conversion ran under a foreign locale",
    "C13": "a seeded history run in a seeded memory configuration and heap and in the reference one; non-trivial if at least 6 calls took effect",
}
FAULTS = {"refused block requests": "block_requests_refused", "refusals after an earlier success inside the same call": "refusals_inside_a_call_after_a_success",
          "bursts of refusals": "refusal_bursts", "damaged inputs": "damaged_inputs", "caller buffers freed after the call": "caller_buffers_freed_after_call",
          "caller buffers overwritten after the call": "caller_buffers_overwritten_after_call", "borrowed texts withdrawn": "borrowed_texts_withdrawn", "texts that lie inside earlier texts or results": "texts_given_again",
          "allocators released while others are live": "releases_with_others_live", "preemptions": "preemptions", "preemptions inside a library call": "preemptions_inside_a_call",
          "preemptions at a block request or release": "preemptions_at_malloc", "preemptions at an access to a global": "preemptions_at_global_access",
          "freed heap blocks handed out again": "heap_blocks_reused", "dirty heap bytes handed out": "dirty_heap_bytes", "size type exhausted": "size_type_exhausted", "locale switches": "locale_switches", "conversions under a foreign locale": "conversions_under_a_foreign_locale"}

def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)

def run(binary, args, timeout=800):
    return subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)

def u64s(path):
    d = open(path, "rb").read()
    return struct.unpack("<%dQ" % (len(d) // 8), d)

def main():
    prop = sys.argv[1]
    if prop not in SIZES: die("unknown property " + prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    n = SIZES[prop][tier == "thorough"]
    if os.environ.get("SIM_SEEDS"): n = int(os.environ["SIM_SEEDS"])
    print("%s: seed %d, tier %s, %d seeds" % (prop, seed, tier, n), flush=True)
    t0 = time.time()
    binary = B.build()
    tb = time.time()
    out = tempfile.mkdtemp(prefix="sim-%s-" % prop, dir=B.CACHE)
    try:
        code = decide(prop, seed, tier, n, binary, out, t0, tb)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.exit(code)

def report(prop, binary, path, expect_hash, detail):
    """Fresh-process gate, then the VIOLATION line."""
    r = run(binary, ["replay", path])
    m = re.search(r"^REPRODUCED (\S+) (\S+) op=(-?\d+) hash=([0-9a-f]+) (.*)", r.stdout, re.M)
    if r.returncode != 1 or not m or (expect_hash and m.group(4) != expect_hash):
        die("a violation did not replay in a fresh process (%s): %s" % (detail, (r.stdout + r.stderr)[:500]))
    if not path.startswith(os.path.join(HERE, "regress")):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        dst = os.path.join(HERE, "replays", os.path.basename(path))
        shutil.copyfile(path, dst)
        path = dst
    print("%s: %s" % (m.group(2), m.group(5)))
    print(open(path, encoding="utf-8", errors="replace").read()[:4000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return m.group(2) + ": " + m.group(5)

def decide(prop, seed, tier, n, binary, out, t0, tb):
    # the minimised traces of defects once found, first
    reg = sorted(f for f in os.listdir(os.path.join(HERE, "regress")) if f.startswith(prop + "-") and f.endswith(".plan"))
    bad = []
    for f in reg:
        path = os.path.join(HERE, "regress", f)
        r = run(binary, ["replay", path])
        if r.returncode == 1: bad.append((path, None, f))
        elif r.returncode != 0: die("replaying %s: %s" % (f, (r.stdout + r.stderr)[:500]))
    # the seeded batch
    procs = []
    for w in range(WORKERS):
        procs.append(subprocess.Popen([binary, "explore", prop, str(seed), str(w), str(WORKERS), str(n), tier, out, str(CAP[tier])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace"))
    errs = []
    for p in procs:
        o, e = p.communicate()
        if p.returncode not in (0, 1): errs.append("exit %s: %s" % (p.returncode, (o + e)[-1500:]))
    te = time.time()
    W = []
    for w in range(WORKERS):
        try: W.append(json.load(open(os.path.join(out, "w%d.json" % w))))
        except (OSError, ValueError): pass
    vs = sorted((j["violation"] for j in W if j["violation"]), key=lambda v: v["seed"])
    bad += [(v["path"], v["hash"], v["detail"]) for v in vs]
    if not bad and errs: die(errs[0])
    unstable = sum(j["unstable"] for j in W)
    if not bad and unstable: die("%d seeds showed a violation that did not repeat in the same process" % unstable)
    # determinism: a sample of the seeds again, in fresh processes and with another distribution over them
    again = 0
    if not bad:
        want = {i: h for j in W for i, h in j["seedhash"]}
        k = min(n, 64)
        ps = []
        for w in range(3):
            d = os.path.join(out, "again%d" % w); os.mkdir(d)
            ps.append((d, w, subprocess.Popen([binary, "explore", prop, str(seed), str(w), "3", str(k), tier, d, "300"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for d, w, p in ps:
            _, e = p.communicate()
            if p.returncode != 0: die("rerun of seeds ended with %s: %s" % (p.returncode, e[-500:]))
            for i, h in json.load(open(os.path.join(d, "w%d.json" % w)))["seedhash"]:
                if i in want:
                    if want[i] != h: die("seed index %d gave two different executions" % i)
                    again += 1
    viol = [report(prop, binary, *bad[0])] if bad else []
    evidence(prop, seed, tier, n, W, out, t0, tb, te, viol, len(reg), again)
    if not viol: print("%s: held on %d simulated runs (%d seeds), %.0f s" % (prop, sum(j["runs"] for j in W), sum(j["seeds"] for j in W), time.time() - t0))
    return 1 if viol else 0

def evidence(prop, seed, tier, n, W, out, t0, tb, te, viol, nreg, again):
    def tot(f): return sum(j[f] for j in W)
    cnt = {}
    subj = {}
    fns = {}
    for j in W:
        for dst, f in ((cnt, "counters"), (subj, "subjects"), (fns, "functions")):
            for k, v in j[f].items(): dst[k] = dst.get(k, 0) + v
    beh, sta, tra = set(), set(), set()
    edges = bytearray(1 << 16)
    for w in range(WORKERS):
        for s, ext in ((beh, "beh"), (sta, "sta"), (tra, "tra")):
            try: s.update(u64s(os.path.join(out, "w%d.%s" % (w, ext))))
            except OSError: pass
        try:
            for i, b in enumerate(open(os.path.join(out, "w%d.cov" % w), "rb").read()):
                if b and i < len(edges): edges[i] = 1
        except OSError: pass
    hours = max(te - tb, 1e-6) / 3600
    cov = {
        "evaluations": tot("plans"),
        "distinct_nontrivial": len(beh),
        "rule": RULE[prop] + "; distinct by the hash of the complete event log (every result, read-back, step count and, with threads, the access trace) and configuration",
        "samples": [s for j in W for s in j["samples"]][:3],
        "seeds": tot("seeds"), "seeds_requested": n, "stopped_by_time_cap": any(j["capped"] for j in W),
        "simulated_runs_including_baselines": tot("runs"),
        "runs_per_hour": int(tot("runs") / hours), "seeds_per_hour": int(tot("seeds") / hours),
        "simulated_time_steps": cnt.get("steps", 0),
        "simulated_time_note": "the library has no clock; simulated time is counted in steps (instrumented memory accesses and control-flow edges of library code)",
        "faults_injected": {k: cnt.get(v, 0) for k, v in FAULTS.items() if cnt.get(v, 0)},
        "fault_outcomes": {k: cnt[k] for k in ("calls_hit_by_refusal", "refused_calls_reporting_failure", "refused_calls_retried_ok", "damaged_rejected", "damaged_accepted_wellformed") if cnt.get(k)},
        "distinct_model_states": len(sta), "distinct_model_states_measure": "hash of the reference model's complete state after an operation",
        "library_edges_reached": sum(edges), "library_edges_measure": "control-flow edges of the instrumented library, all configurations",
        "operations": cnt.get("operations", 0), "library_calls": cnt.get("library_calls", 0), "readbacks": cnt.get("observations", 0),
        "other_counters": {k: v for k, v in cnt.items() if v and k not in FAULTS.values() and k not in ("steps", "operations", "library_calls", "observations")},
        "deepest_stack_of_a_call_bytes": max([j["maxstack"] for j in W] or [0]), "largest_share_of_allowed_memory": max([j["maxmem"] for j in W] or [0]) / 1000, "most_steps_per_byte_involved": max([j["maxratio"] for j in W] or [0]) / 1000,
        "runs_per_configuration": subj, "calls_per_function": fns,
        "runs_ended_by_the_real_machine_limits": tot("limits"), "runs_outside_this_property": tot("unjudged"),
        "regression_traces_replayed": nreg, "seeds_rerun_in_fresh_processes_with_equal_event_logs": again,
        "real_components": "zzzjson.h and zzzjson.hpp from /repo, compiled as shipped in every listed flavour and configuration",
        "stubbed_components": "the C heap, the C string/number conversion functions the library calls (checked models of them), locks and the thread scheduler",
    }
    if tra: cov["distinct_interleavings"] = len(tra); cov["distinct_interleavings_measure"] = "hash of the global sequence of (thread, library step) segments between preemptions"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["seeded sampling: a clean batch is evidence, not proof", "the library is compiled by clang with instrumentation; other compilers' code is assumed to mean the same"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))

if __name__ == "__main__": main()
