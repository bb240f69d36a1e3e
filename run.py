#!/usr/bin/env python3
"""Builds and runs the property checks.

  run.py check C01             one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE...        re-runs saved cases
  run.py build [C01...]        builds only
  run.py manifest              rewrites MANIFEST.json from checks.json
"""

import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BNL_REPO", "/repo")
DEPS = "/opt/vp/deps"
BUILD = os.environ.get("BNL_BUILD", os.path.join(VERIF, ".build"))


def clean_env():
    env = dict(os.environ)
    for name in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPATH", "LIBRARY_PATH"):
        env.pop(name, None)
    env["LC_ALL"] = "C.UTF-8"
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env


def run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, env=clean_env(), **kw)


def build(targets, variant="search"):
    """Builds from the working tree of the repository; returns the build dir."""
    B = os.path.join(BUILD, variant)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    fresh(B)
    os.makedirs(B, exist_ok=True)
    for name, header in (("outcome", "outcome-basic.hpp"), ("doctest", "doctest.h")):
        d = os.path.join(B, "_deps", name)
        os.makedirs(d, exist_ok=True)
        link = os.path.join(d, header)
        if not os.path.lexists(link):
            os.symlink(os.path.join(DEPS, name, header), link)
    log = os.path.join(B, "build.log")
    open(log, "w").close()
    flags = "-include %s/compat/compat.hpp -w -g1 -fno-omit-frame-pointer " % DEPS
    extra = []
    if variant == "search":
        cxx = "g++"
        flags += "-O1 -fsanitize=address,undefined -fno-sanitize-recover=all"
    elif variant == "threads":
        cxx = "g++"
        flags += "-O1 -fsanitize=thread"
        extra = ["-DPBT_COVERAGE="]
    else:
        cxx = "clang++"
        flags += "-O1 -fsanitize=address,undefined -fno-sanitize-recover=all"
        extra = ["-DPBT_LIBFUZZER=ON", "-DPBT_COVERAGE=-fsanitize=fuzzer-no-link"]
    if not os.path.exists(os.path.join(B, "build.ninja")):
        rc = run(["cmake", "-S", os.path.join(VERIF, "pbt"), "-B", B, "-G", "Ninja",
                  "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_COMPILER=" + cxx,
                  "-DCMAKE_CXX_FLAGS=" + flags, "-DBNL_REPO=" + REPO,
                  "-DBNL_TEST=OFF", "-DBNL_INSTALL=OFF", "-DFMT_INSTALL=OFF",
                  "-DCMAKE_POLICY_DEFAULT_CMP0077=NEW",
                  "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                  "-DFETCHCONTENT_BASE_DIR=" + os.path.join(B, "_deps"),
                  "-DFETCHCONTENT_SOURCE_DIR_FMT=%s/fmt" % DEPS,
                  "-DFETCHCONTENT_SOURCE_DIR_XXHASH=%s/xxhash" % DEPS,
                  "-DFETCHCONTENT_SOURCE_DIR_NGTCP2=%s/pbt/sim/ngtcp2" % VERIF,
                  "-DFETCHCONTENT_SOURCE_DIR_BORINGSSL=%s/pbt/sim/boringssl" % VERIF] + extra, log)
        if rc != 0:
            die_build(log)
    if run(["ninja", "-C", B] + targets, log) != 0:
        die_build(log)
    return B


def fresh(B):
    """ninja trusts time stamps: start over when a file's content changed without a newer one."""
    seen = {}
    for top in (os.path.join(REPO, "bnl"), os.path.join(REPO, "cmake"), os.path.join(REPO, "external"),
                os.path.join(VERIF, "pbt")):
        for d, _, files in os.walk(top):
            for name in files:
                path = os.path.join(d, name)
                try:
                    with open(path, "rb") as f:
                        seen[path] = hashlib.sha256(f.read()).hexdigest()
                except OSError:
                    pass
    manifest = os.path.join(B, "sources.json")
    try:
        with open(manifest) as f:
            old = json.load(f)
        when = os.stat(manifest).st_mtime_ns
        stale = any(old.get(path, seen[path]) != seen[path] and os.stat(path).st_mtime_ns <= when for path in seen)
    except (OSError, ValueError):
        stale = True
    if stale:
        shutil.rmtree(B, ignore_errors=True)
    os.makedirs(B, exist_ok=True)
    with open(manifest + ".new", "w") as f:
        json.dump(seen, f)
    os.rename(manifest + ".new", manifest)


def die_build(log):
    sys.stderr.write("the build failed\n")
    with open(log, errors="replace") as f:
        sys.stderr.write(f.read()[-6000:])
    sys.exit(2)


def asan_env(env):
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:max_allocation_size_mb=3000:"
                           "hard_rss_limit_mb=6000:allocator_may_return_null=0:detect_stack_use_after_return=0:"
                           "max_malloc_fill_size=65536:malloc_fill_byte=239:symbolize=1:handle_segv=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4:report_thread_leaks=0:report_bugs=1"
    return env


def config():
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)


def check(pid):
    started = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = config()[pid]
    targets = ["pbt-" + pid] + cfg.get("targets", [])
    variant = cfg.get("variant", "search")
    B = build(targets, variant)
    built = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt-")
    stats_path = os.path.join(tmp, "stats.json")
    env = asan_env(clean_env())
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, PBT_TMP=tmp, PBT_STATS=stats_path,
               PBT_REPLAY_DIR=os.path.join(VERIF, "replays"), PBT_BUILD=B, BNL_REPO=REPO)
    exe = os.path.join(B, "pbt-" + pid)
    p = subprocess.run([exe, "run"], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
    out = p.stdout
    sys.stdout.write(out)
    rc = p.returncode
    fuzz = None
    if rc == 0 and tier == "thorough" and not cfg.get("no_fuzz"):
        fuzz, rc2, out2 = fuzz_tier(pid, env, exe, tmp, seed)
        if rc2 != 0:
            rc = rc2
        sys.stdout.write(out2)
    try:
        with open(stats_path) as f:
            stats = json.load(f)
    except (OSError, ValueError):
        stats = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "no statistics", "samples": []}
    violations = 1 if rc == 1 else 0
    coverage = {
        "evaluations": stats["evaluations"],
        "distinct_nontrivial": stats["distinct_nontrivial"],
        "rule": stats["rule"],
        "samples": stats["samples"],
        "nontrivial_cases": stats.get("nontrivial"),
        "discarded": stats.get("discarded"),
        "planned": stats.get("planned"),
        "stopped_at_time_cap": stats.get("stopped_at_time_cap"),
        "unconfirmed_failures": stats.get("unconfirmed_failures"),
        "distribution": stats.get("labels"),
        "enumerated_completely": stats.get("enumerations"),
        "search_s": stats.get("search_s"),
    }
    if fuzz is not None:
        coverage["coverage_guided"] = fuzz
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": cfg.get("assumptions", []) + [
            "the code is compiled by gcc with %s, assertions on; "
            "a sanitizer report or an assertion failure inside a generated case is a violation" %
            ("ThreadSanitizer" if variant == "threads" else "AddressSanitizer and UndefinedBehaviorSanitizer"),
        ],
        "wall_s": round(time.time() - started, 2),
        "build_s": round(built - started, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    if rc == 0:
        print("OK property=%s cases=%d distinct_nontrivial=%d wall=%.1fs" %
              (pid, stats["evaluations"], stats["distinct_nontrivial"], time.time() - started))
        return 0
    if rc == 1:
        return 1
    sys.stderr.write("the check program ended with status %d\n" % rc)
    return 2


def fuzz_tier(pid, env, exe, tmp, seed):
    """Coverage-guided search over the same properties (libFuzzer)."""
    B = build(["pbt-" + pid], "fuzz")
    seconds = int(os.environ.get("PBT_FUZZ_SECONDS", "240"))
    jobs = 8
    procs = []
    for i in range(jobs):
        d = os.path.join(tmp, "fuzz%d" % i)
        os.makedirs(os.path.join(d, "corpus"))
        e = dict(env, PBT_CRASH_DIR=d)
        procs.append((d, subprocess.Popen(
            [os.path.join(B, "pbt-" + pid), "-seed=%d" % (seed * 100 + i + 1), "-max_total_time=%d" % seconds,
             "-max_len=%d" % (400, 1500, 4000)[i % 3], "-len_control=%d" % (100, 0)[i // 2 % 2], "-use_value_profile=%d" % (i % 2), "-timeout=60",
             "-rss_limit_mb=3500", "-print_final_stats=1", "-artifact_prefix=%s/" % d, os.path.join(d, "corpus")],
            env=e, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "log"), "w"))))
    execs = 0
    cases = []
    for d, p in procs:
        p.wait()
        with open(os.path.join(d, "log"), errors="replace") as f:
            for line in f:
                if "number_of_executed_units" in line:
                    execs += int(line.split()[-1])
        cases += [os.path.join(d, x) for x in os.listdir(d) if x.endswith(".case")]
    confirmed = None
    for c in cases:
        # A find counts only if the ordinary build fails on it, three times.
        if all(subprocess.run([exe, "replay", c], env=env, stdout=subprocess.DEVNULL).returncode == 1
               for _ in range(3)):
            confirmed = c
            break
    out = ""
    rc = 0
    if confirmed:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        dest = os.path.join(VERIF, "replays", "%s-fuzz-%s" % (pid, os.path.basename(confirmed)))
        shutil.copy(confirmed, dest)
        shown = subprocess.run([exe, "replay", dest], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        out = shown.stdout[-3000:] + "VIOLATION property=%s replay=%s\n" % (pid, dest)
        rc = 1
    return {"executions": execs, "seconds": seconds, "processes": jobs, "saved_failures": len(cases)}, rc, out


def replay(files):
    rc = 0
    for path in files:
        with open(path) as f:
            pid = f.readline().split()[1]
        B = build(["pbt-" + pid] + config()[pid].get("targets", []), config()[pid].get("variant", "search"))
        tmp = tempfile.mkdtemp(prefix="pbt-")
        env = asan_env(clean_env())
        env.update(PBT_TMP=tmp, PBT_BUILD=B, BNL_REPO=REPO)
        r = subprocess.call([os.path.join(B, "pbt-" + pid), "replay", path], env=env)
        shutil.rmtree(tmp, ignore_errors=True)
        rc = max(rc, r)
    return rc


def manifest():
    cfg = config()
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "hooks": {"guard": "", "enable": "no hooks are needed: the checks use the public API only"},
        "checks": [],
        "not_applicable": [],
    }
    m.pop("hooks")
    for pid in sorted(cfg):
        c = cfg[pid]
        if "not_applicable" in c:
            m["not_applicable"].append({"property": pid, "reason": c["not_applicable"]})
            continue
        m["checks"].append({
            "property": pid,
            "quick_cmd": "VERIF_TIER=quick python3 run.py check " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + pid,
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["level_note"],
        })
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    if cmd == "check":
        sys.exit(check(sys.argv[2]))
    if cmd == "replay":
        sys.exit(replay(sys.argv[2:]))
    if cmd == "build":
        cfg = config()
        ids = sys.argv[2:] or [p for p in sorted(cfg) if "not_applicable" not in cfg[p]]
        for variant in ("search", "threads"):
            some = ["pbt-" + p for p in ids if cfg[p].get("variant", "search") == variant]
            if some:
                build(some, variant)
        return
    if cmd == "setup":
        # Nothing to prepare: every check builds what it needs from the tree it
        # finds. This only makes sure that the tools are there.
        for tool in ("g++", "cmake", "ninja"):
            if shutil.which(tool, path=clean_env()["PATH"]) is None:
                sys.exit("missing " + tool)
        return
    if cmd == "manifest":
        manifest()
        return
    sys.stderr.write(__doc__)
    sys.exit(2)


main()
