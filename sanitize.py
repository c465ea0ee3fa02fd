"""C19: the workload of harness/src/workload.rs under Miri, ThreadSanitizer and AddressSanitizer."""
import json
import os
import re
import signal
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import __main__ as check

VERIF, REPO, TARGET, HARNESS, HOST = check.VERIF, check.REPO, check.TARGET, check.HARNESS, check.HOST
SYSROOT = TARGET + "/miri-sysroot"
MIRI_SRC = [VERIF + "/miri", HARNESS + "/src/workload.rs", VERIF + "/getrandom-det"]
BASE = "-Ctarget-cpu=x86-64 -Awarnings -Cdebug-assertions=on -Cforce-frame-pointers=yes "


def b_tsan():
    p = "%s/tsan/%s/checked/stress" % (TARGET, HOST)
    check.build("tsan", check.REPO_SRC + check.HARNESS_SRC,
                ["cargo", "+nightly", "build", "--offline", "-q", "-Zbuild-std", "--target", HOST, "--profile", "checked", "--bin", "stress",
                 "--manifest-path", HARNESS + "/Cargo.toml"],
                [p], env={"RUSTFLAGS": BASE + "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer --cfg crossbeam_sanitize_thread"}, forget=("walky-*", "monitor-*"))
    return p


def b_asan():
    p = "%s/asan/%s/checked/stress" % (TARGET, HOST)
    check.build("asan", check.REPO_SRC + check.HARNESS_SRC,
                ["cargo", "+nightly", "build", "--offline", "-q", "--target", HOST, "--profile", "checked", "--bin", "stress",
                 "--manifest-path", HARNESS + "/Cargo.toml"],
                [p], env={"RUSTFLAGS": BASE + "-Zsanitizer=address"}, forget=("walky-*", "monitor-*"))
    return p


def miri_env(flags=""):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=TARGET + "/miri", RUSTFLAGS="-Awarnings", MIRI_SYSROOT=SYSROOT, CARGO_TERM_COLOR="never", MIRIFLAGS=flags, RUST_BACKTRACE="0")
    return e


FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-tree-borrows"


def b_miri():
    if not os.path.isdir(SYSROOT + "/lib"):
        p = subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=VERIF + "/miri", env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise check.BuildError("miri setup failed\n" + p.stdout[-3000:])
    # building is a by-product of running
    check.build("miri", check.REPO_SRC + MIRI_SRC,
                ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", VERIF + "/miri/Cargo.toml", "--", "0", "2", "1"],
                [], env={k: miri_env(FLAGS)[k] for k in ("RUSTFLAGS", "MIRI_SYSROOT", "MIRIFLAGS", "CARGO_TERM_COLOR")}, forget=("walky-*", "underneath-*"))


def setup():
    b_tsan()
    b_asan()
    b_miri()


STRESS = re.compile(r"^STRESS (\{.*\})$", re.M)


def run(argv, env, limit, cwd=VERIF):
    t = time.time()
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out, time.time() - t
    return p.returncode, out, time.time() - t


def first_report(out, pats):
    """The report from its first line on, and a one-line summary."""
    for pat in pats:
        k = out.find(pat)
        if k >= 0:
            line = out[k:].splitlines()[0]
            return line, out[k:k + 6000]
    return None, None


def miri_jobs(seed, thorough):
    plan = [("prim", (4, 5, 6, 7), 5), ("christofides", (4, 5, 6, 7), 5), ("one-tree", (3, 4, 5), 2), ("matching", (4, 6, 8, 9), 3),
            ("nearest-neighbour", (2, 4, 5), 2), ("points", (1, 3, 6), 2), ("exact", (4,), 3), ("graph", (1, 5), 1), ("parse", (2, 3), 1)]
    jobs = []
    k = 0
    for part, sizes, reps in plan:
        for r in range(reps * (25 if thorough else 1)):
            s = seed * 1000 + k
            jobs.append(dict(part=part, n=sizes[(r + seed) % len(sizes)], threads=(2, 3, 2, 4)[(r + k) % 4], seed=s,
                             rate=("0.01", "0.1", "0.3", "0.02")[(r + seed) % 4], cpus=(1, 2, 3)[(k + seed) % 3]))
            k += 1
    # dear ones first
    jobs.sort(key=lambda j: {"one-tree": 0, "exact": 1, "christofides": 2}.get(j["part"], 3))
    return jobs


def do_miri(job):
    flags = "%s -Zmiri-seed=%d -Zmiri-preemption-rate=%s -Zmiri-num-cpus=%d" % (FLAGS, job["seed"], job["rate"], job["cpus"])
    argv = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", VERIF + "/miri/Cargo.toml", "--",
            str(job["seed"]), str(job["n"]), str(job["threads"]), job["part"]]
    rc, out, wall = run(argv, miri_env(flags), 240, VERIF + "/miri")
    cmd = "cd %s/miri && CARGO_TARGET_DIR=%s/miri MIRI_SYSROOT=%s RUSTFLAGS=-Awarnings MIRIFLAGS='%s' %s" % (VERIF, TARGET, SYSROOT, flags, " ".join(argv))
    return rc, out, wall, cmd


def check_(extra):
    seed, thorough = check.seed(), check.tier() == "thorough"
    b_miri()
    tsan, asan = b_tsan(), b_asan()
    violations, inconclusive = [], []
    cov = {"miri_executions": 0, "miri_calls": {}, "miri_schedules": set(), "tsan_calls": {}, "asan_calls": {}}
    panics, samples, evals, distinct = 0, [], 0, 0
    last_panic = ""

    def add(dst, o):
        nonlocal panics, last_panic
        for a, b in o["names"].items():
            dst[a] = dst.get(a, 0) + b
        panics += o["panics"]
        last_panic = o["last_panic"] or last_panic

    # Miri: every schedule it picks is a different one
    deadline = time.time() + (900 if thorough else 75)
    jobs = miri_jobs(seed, thorough)
    skipped = 0

    def guarded(j):
        if time.time() > deadline:
            return None
        return do_miri(j)

    with ThreadPoolExecutor(8) as ex:
        for job, res in zip(jobs, ex.map(guarded, jobs)):
            if res is None:
                skipped += 1
                continue
            rc, out, wall, cmd = res
            name = "Miri, %(part)s, %(n)d cities, %(threads)d threads, seed %(seed)d" % job
            line, rep = first_report(out, ["error: Undefined Behavior", "error: abnormal termination"])
            m = STRESS.search(out)
            if line:
                violations.append((name + ": " + line, rep, cmd))
            elif rc == 0 and m:
                o = json.loads(m.group(1))
                add(cov["miri_calls"], o)
                cov["miri_executions"] += 1
                evals += o["calls"]
                distinct += 1 if job["n"] >= 3 and job["threads"] >= 2 else 0
                cov["miri_schedules"].add((job["part"], job["n"], job["threads"], job["seed"], job["rate"]))
                if len(samples) < 6:
                    samples.append("%s, preemption rate %s: %s" % (name, job["rate"], m.group(1)[:300]))
            elif rc is None:
                inconclusive.append(name + ": not finished within its time")
            else:
                inconclusive.append(name + ": " + (first_report(out, ["error:"])[0] or out[-400:]))

    # compiled sanitizers
    runs = 6 if thorough else 1
    secs = 60 if thorough else 11
    for kind, exe, env, pats in (
        ("tsan", tsan, {"TSAN_OPTIONS": "halt_on_error=1 second_deadlock_stack=1 history_size=4 report_bugs=1 suppressions=%s" % (VERIF + "/tsan.supp")}, ["WARNING: ThreadSanitizer", "FATAL: ThreadSanitizer"]),
        ("asan", asan, {"ASAN_OPTIONS": "detect_leaks=0 abort_on_error=0 detect_stack_use_after_return=1"}, ["ERROR: AddressSanitizer", "AddressSanitizer:DEADLYSIGNAL"]),
    ):
        for r in range(runs):
            argv = [exe, str(seed * 100 + r), str(secs if kind == "tsan" else max(6, secs // 2)), "120" if kind == "asan" or r % 2 == 0 else "40"]
            rc, out, wall = run(argv, dict(os.environ, RUST_BACKTRACE="0", **env), secs + 300)
            cmd = " ".join("%s='%s'" % kv for kv in env.items()) + " " + " ".join(argv)
            line, rep = first_report(out, pats)
            m = STRESS.search(out)
            if line:
                frames = [l.strip() for l in rep.splitlines() if "walky" in l or "/repo/" in l][:3]
                violations.append(("%s: %s %s" % (kind, line, " | ".join(frames)), rep, cmd))
                break
            if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL):
                violations.append(("%s build died of %s: %s" % (kind, signal.Signals(-rc).name, (first_report(out, ["unsafe precondition"])[0] or out[-300:])), out[-6000:], cmd))
                break
            if rc == 0 and m:
                o = json.loads(m.group(1))
                add(cov[kind + "_calls"], o)
                evals += o["executions"]
                distinct += o["shapes"]
                samples.append("%s, %d s: %d executions of %d different (algorithm, size, pool) shapes" % (kind, int(wall), o["executions"], o["shapes"]))
            else:
                inconclusive.append("%s run ended with %s: %s" % (kind, rc, out[-400:]))
        if violations:
            break

    cov["miri_schedules"] = len(cov["miri_schedules"])
    cov["miri_jobs_skipped_for_time"] = skipped
    cov["panics_caught_and_not_judged"] = panics
    if last_panic:
        cov["last_panic"] = last_panic[:300]
    cov.update(evaluations=evals, distinct_nontrivial=distinct, samples=samples[:20], inconclusive=inconclusive[:10],
               rule="An evaluation is one call of a library function watched by Miri or one workload execution watched by ThreadSanitizer or AddressSanitizer without a report. Distinct non-trivial: Miri executions (each with its own random schedule) of at least 3 cities on at least 2 threads, plus the different (algorithm, size class, pool size) shapes run under each sanitizer.")
    check.write_evidence("C19", cov, len(violations), [
        "Miri explores one random schedule per execution and uses the Tree Borrows aliasing model; ThreadSanitizer and AddressSanitizer see the executions that occur",
        "a panic is defined behaviour and is not judged here",
    ])
    for what, detail, cmd in violations[:5]:
        check.violation("C19", what, detail + "\n\ncommand: " + cmd)
    if violations:
        return 1
    if inconclusive or not cov["miri_executions"]:
        print("INCONCLUSIVE: " + "; ".join(inconclusive[:5]))
        return 2
    print("C19 %s seed=%d: %d Miri executions, %d evaluations, %d distinct, %d skipped, %.1f s" % (check.tier(), seed, cov["miri_executions"], evals, distinct, skipped, time.time() - check.T0))
    check.known("C19")
    return 0
