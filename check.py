#!/usr/bin/env python3
"""Builds what a check needs from /repo's working tree and runs it (see DESIGN.md)."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

T0 = time.time()
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"

CLI = {"C12", "C13", "C14", "C22", "C25", "C28", "C31"}
BENCH = {"C27"}
MPI = {"C20", "C21"}
GEN = {"C22"}
ALL = ["C%02d" % i for i in range(1, 32)]


class BuildError(Exception):
    pass


def files_of(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(*roots):
    h = hashlib.sha256()
    for f in files_of(*roots):
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
        h.update(b"\1")
    return h.hexdigest()


REPO_SRC = [REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/build.rs"]
HARNESS_SRC = [HARNESS + "/src", HARNESS + "/Cargo.toml", HARNESS + "/Cargo.lock", VERIF + "/getrandom-det"]


def build(name, srcs, argv, products, env=None, forget=("walky-*",), cwd=VERIF):
    """Run argv unless the products were built from exactly these sources."""
    os.makedirs(TARGET, exist_ok=True)
    tdir = os.path.join(TARGET, name)
    stamp = os.path.join(TARGET, name + ".stamp")
    with open(os.path.join(TARGET, name + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = digest(*srcs) + " " + " ".join(argv)
        try:
            have = open(stamp).read()
        except OSError:
            have = ""
        if have == want and all(os.path.exists(p) for p in products):
            return
        if os.path.exists(stamp):
            os.remove(stamp)
        # cargo decides by modification times; make it look at the crates again whatever they say
        for pat in forget:
            for depth in ("*", "*/*", "*/*/*"):
                for d in glob.glob(os.path.join(tdir, depth, ".fingerprint", pat)):
                    shutil.rmtree(d, ignore_errors=True)
        e = dict(os.environ)
        e["CARGO_TARGET_DIR"] = tdir
        e["RUSTFLAGS"] = "-Ctarget-cpu=x86-64 -Awarnings"
        e.update(env or {})
        p = subprocess.run(argv, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0 or not all(os.path.exists(x) for x in products):
            lines = [l for l in p.stdout.splitlines() if not l.startswith("warning")]
            raise BuildError("build of %s failed (%s)\n%s" % (name, p.returncode, "\n".join(lines[-40:])))
        with open(stamp, "w") as f:
            f.write(want)


def b_harness():
    build("h", REPO_SRC + HARNESS_SRC,
          ["cargo", "build", "--offline", "-q", "--profile", "checked", "--manifest-path", HARNESS + "/Cargo.toml"],
          [TARGET + "/h/checked/monitor"], forget=("walky-*", "monitor-*"))
    return TARGET + "/h/checked/monitor"


PLAIN = {"CARGO_PROFILE_RELEASE_LTO": "false", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "16", "CARGO_PROFILE_RELEASE_DEBUG": "0",
         "CARGO_PROFILE_RELEASE_INCREMENTAL": "true"}


def b_cli():
    build("cli", REPO_SRC,
          ["cargo", "build", "--offline", "-q", "--release", "--bin", "walky", "--manifest-path", REPO + "/Cargo.toml"],
          [TARGET + "/cli/release/walky"], env=PLAIN)
    return TARGET + "/cli/release/walky"


def b_mpi():
    # as shipped plus debug assertions and overflow checks
    env = dict(PLAIN, CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true")
    build("mpi", REPO_SRC,
          ["cargo", "build", "--offline", "-q", "--release", "--features", "mpi", "--bin", "walky", "--manifest-path", REPO + "/Cargo.toml"],
          [TARGET + "/mpi/release/walky"], env=env)
    return TARGET + "/mpi/release/walky"


def b_bench():
    # the build benchmarks/README.md asks for
    build("bench", REPO_SRC,
          ["cargo", "build", "--offline", "-q", "--release", "--features", "mpi,benchmarking", "--bin", "walky", "--manifest-path", REPO + "/Cargo.toml"],
          [TARGET + "/bench/release/walky"], env=PLAIN)
    return TARGET + "/bench/release/walky"


def b_shim():
    build("shim", [VERIF + "/mpishim"],
          ["mpicc", "-O1", "-shared", "-fPIC", "-o", TARGET + "/shim.so", VERIF + "/mpishim/shim.c", "-ldl", "-lpthread"],
          [TARGET + "/shim.so"])
    return TARGET + "/shim.so"


def b_gen():
    g = REPO + "/utils/gen_matrix_fast"
    build("gen", [g],
          ["cargo", "build", "--offline", "-q", "--release", "--manifest-path", g + "/Cargo.toml"],
          [TARGET + "/gen/release/gen_matrix_fast"], forget=("gen_matrix_fast-*",))
    return TARGET + "/gen/release/gen_matrix_fast"


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def violation(ident, what, detail):
    os.makedirs(VERIF + "/replays", exist_ok=True)
    path = "%s/replays/%s-run.txt" % (VERIF, ident)
    with open(path, "w") as f:
        f.write("property: %s\nseed: %d\ntier: %s\nviolation: %s\n\n%s\n\nreplay:\n  cd %s && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s\n"
                % (ident, seed(), tier(), what, detail, VERIF, seed(), tier(), ident))
    print("VIOLATION property=%s replay=%s" % (ident, path))
    print("  " + what)


def run_monitor(ident, extra):
    args = [b_harness(), ident, "--tier", tier(), "--seed", str(seed()), "--verif", VERIF,
            "--evidence", "%s/evidence/%s.json" % (VERIF, ident)]
    if ident in CLI:
        args += ["--walky", b_cli()]
    if ident in MPI:
        args += ["--walky-mpi", b_mpi(), "--shim", b_shim()]
    if ident in BENCH:
        args += ["--walky-bench", b_bench()]
    if ident in GEN:
        args += ["--gen-fast", b_gen()]
    args += extra
    limit = 820 if tier() == "quick" else 4 * 3600
    args += ["--t0", str(T0)]
    env = dict(os.environ, RUST_BACKTRACE="0")
    p = subprocess.Popen(args, env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        print(out)
        print("INCONCLUSIVE: the monitor did not finish within %d s" % limit)
        return 2
    sys.stdout.write(out)
    rc = p.returncode
    if rc in (0, 1):
        if rc == 0 and "--case" not in extra:
            known(ident)
        return rc
    tail = err[-3000:]
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
        where = crash_place(ident)
        what = "the process running the library died of signal %d (%s); cases in flight: %s" % (-rc, signal.Signals(-rc).name, where)
        violation(ident, what, tail)
        write_evidence(ident, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "crash of the monitored process", "samples": [what]}, 1)
        return 1
    print(tail)
    print("INCONCLUSIVE: the monitor ended with status %d" % rc)
    return 2


def crash_place(ident):
    return "see the captured output"


def write_evidence(ident, coverage, violations, assumptions=()):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, ident), "w") as f:
        json.dump({"property": ident, "tier": tier(), "seed": seed(), "level": "exploration", "coverage": coverage,
                   "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 2), "violations": violations}, f, indent=1)


def known(ident):
    """Print the recorded, unrepaired findings of this property."""
    try:
        for l in open(VERIF + "/known_findings.txt"):
            if l.startswith("finding: property=%s " % ident):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    except OSError:
        pass


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    what, extra = sys.argv[1], sys.argv[2:]
    try:
        if what == "setup":
            b_harness()
            b_cli()
            b_gen()
            b_shim()
            b_mpi()
            b_bench()
            import sanitize
            sanitize.setup()
            return 0
        if what == "C19":
            import sanitize
            return sanitize.check_(extra)
        if what in ALL:
            return run_monitor(what, extra)
    except BuildError as e:
        print("INCONCLUSIVE: %s" % e)
        return 2
    print("unknown check " + what)
    return 2


if __name__ == "__main__":
    sys.exit(main())
