#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by deterministic simulation of /repo's working tree.

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken; exit 2: no answer."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")

def level_text():
    return ["the rank program interpreter drives the public C and Fortran entry points compiled from the working tree; "
            "MPI, heap, clock and stdio are simulated (sim/sim.cpp, sim/mpi.h)",
            "ranks interleave only at MPI calls: the library keeps no state shared between ranks, so finer interleavings are indistinguishable",
            "at most %d ranks, workloads of the sizes in coverage; x86-64, gcc -O2" % 130,
            "the oracles of sim/gen.cpp and sim/fpgen.cpp (independent re-statements of the documented semantics) are trusted"]

REAL = ["every file of /repo/src except gen_poly_imp.c: gs.c gs_local.c comm.c comm.h crystal.c sarray_transfer.c sort.c sarray_sort.h mem.h fail.c findpts*.c obbox.c lob_bnd.c poly.c tensor.c ...",
        "C and Fortran (name-mangled) interfaces; built with MPI and naive linear algebra (std), with MPI, GSLIB_USE_NBC and CBLAS (nbc), and without MPI using the application's mxm (serial)"]
STUB = ["MPI (sim/mpi.h, sim/sim.cpp: matching, eager/rendezvous/late-read sends, collectives, communicators)",
        "malloc/calloc/realloc/free, memcpy/memset/memmove (shadow-checked), stdio writes, MPI_Wtime and every other clock, exit/abort",
        "application around the library (sim/wl.c), its Fortran mxm and the CBLAS of the nbc and serial builds (sim/blas.c)"]

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="gsdst-%s-" % prop)
    try:
        return run(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

GIANT = {"C17": "C17G"}  # profiles with tables of 17 GB, one seed, one worker

def giant(prof, cmd, libs, out, env, st):
    free = next(int(l.split()[1]) // 1048576 for l in open("/proc/meminfo") if l.startswith("MemAvailable"))
    class OK: returncode = 0
    if free < 22: print("%s skipped: %d GB free" % (prof, free)); return OK, st
    o2 = out + "g"; os.mkdir(o2); env = dict(env, SIM_SHRINK="0")
    r = subprocess.run(cmd[:2] + ["--prop", prof] + libs + ["--out", o2, "--seed", cmd[cmd.index("--seed") + 1], "--workers", "1", "-n", os.environ.get("SIM_GIANT", "3")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    print(r.stdout[-3000:], flush=True)
    if r.returncode == 1: shutil.copy(os.path.join(o2, "replay.json"), os.path.join(out, "replay.json"))
    elif r.returncode == 0: st["probes"] = dict(st.get("probes") or {}, global_tables_beyond_32_bits=json.load(open(os.path.join(o2, "stats.json")))["runs"])
    return r, st

def run(prop, tier, seed, work, t0):
    print("seed %d tier %s property %s" % (seed, tier, prop), flush=True)
    r = subprocess.run(["bash", os.path.join(HERE, "sim", "build.sh"), work, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0 or not os.path.exists(os.path.join(work, "dst")):
        print(r.stdout[-4000:]); print("the simulator could not be built from %s" % REPO); return 2
    tb = time.time() - t0
    dst = os.path.join(work, "dst")
    libs = ["--std", os.path.join(work, "std.so"), "--nbc", os.path.join(work, "nbc.so")]
    out = os.path.join(work, "out"); os.mkdir(out)
    workers = max(2, min(8, os.cpu_count() or 8))
    cmd = [dst, "run", "--prop", prop] + libs + ["--out", out, "--seed", str(seed), "--workers", str(workers)]
    env = dict(os.environ)
    if tier == "thorough":
        cmd += ["-n", os.environ.get("SIM_N", "100000000"), "--time", os.environ.get("SIM_TIME", "1500")]; env.setdefault("SIM_SHRINK", "120")
    else:
        cmd += ["--time", os.environ.get("SIM_TIME", "240")]; env.setdefault("SIM_SHRINK", "25")
        if "SIM_N" in os.environ: cmd += ["-n", os.environ["SIM_N"]]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    print(r.stdout[-6000:], flush=True)
    try:
        st = json.load(open(os.path.join(out, "stats.json"), errors="replace"))
    except Exception as e:
        print("no statistics: %s" % e); return 2
    if r.returncode not in (0, 1): return 2
    if tier == "thorough" and r.returncode == 0 and prop in GIANT: r, st = giant(GIANT[prop], cmd, libs, out, env, st)
    if r.returncode not in (0, 1): return 2
    viol = 0; replay = None
    if r.returncode == 1:
        src = os.path.join(out, "replay.json")
        for k in range(2):  # each in a fresh process; same class and same event hash
            q = subprocess.run([dst, "replay", src] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if q.returncode != 1 or "\nREPRODUCED" not in q.stdout:
                print(q.stdout[-3000:]); print("the violation does not replay in a fresh process"); return 2
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", "%s-%d.json" % (prop, seed)); shutil.copy(src, replay); viol = 1
    wall = time.time() - t0
    c = st["counters"]; secs = max(st["seconds"], 1e-3)
    fk = ["late_send_buffer_reads", "rendezvous_sends", "delayed_deliveries", "overtaken_messages", "wildcard_matches", "rank_stalls", "starved_steps", "network_starved_steps", "late_collective_completions", "clock_jumps_forward", "clock_steps_back", "clock_freezes", "allocation_failures", "short_writes"]
    cov = {"evaluations": st["runs"], "distinct_nontrivial": st["distinct_nontrivial"],
           "rule": "one case = one seed: a generated program of library calls on 1..130 simulated ranks executed under one seeded schedule and fault sequence; non-trivial = at least two ranks, at least one message or collective and at least one compared result; distinct by the hash of the full event sequence (rank switches, sends, receives, deliveries, collectives, allocation failures, exits)",
           "samples": st["samples"],
           "runs_per_hour": int(st["runs"] / secs * 3600), "seeds": {"base": seed, "used": st["runs"], "planned": st["planned"]},
           "simulated_time_s": c["simulated_ns"] / 1e9, "results_compared": st["checked"],
           "faults_injected": {k: c[k] for k in fk},
           "traffic": {k: c[k] for k in ("messages", "message_bytes", "collectives", "context_switches", "library_allocations", "steps")},
           "distinct_event_sequences": st["distinct_event_sequences"], "distinct_workloads": st["distinct_workloads"], "distinct_op_sequences": st["distinct_op_sequences"],
           "rank_counts": st["ranks"], "schedule_strategies": st["strategies"], "operations": st["operations"], "runs_by_build": {"std": st["runs_std_build"], "nbc": st["runs_nbc_build"], "serial": st["runs_serial_build"]},
           "runs_with_allocation_failure": st["runs_with_allocation_failure"], "seeds_run_twice": {"runs": st["reruns"], "different_event_hash": st["reruns_different"]}, "build_s": round(tb, 2), "search_s": st["seconds"], "workers": st["workers"],
           "components_real": REAL, "components_simulated": STUB, "violation": st["violation"]}
    if "probes" in st: cov["probes"] = st["probes"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": level_text(), "wall_s": round(wall, 2), "violations": viol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, replay)); return 1
    if st["runs"] == 0 or st["distinct_nontrivial"] < 2:
        print("nothing was explored"); return 2
    print("OK property=%s runs=%d distinct=%d in %.1f s" % (prop, st["runs"], st["distinct_nontrivial"], wall)); return 0

sys.exit(main())
