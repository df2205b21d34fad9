#!/usr/bin/env python3
"""Builds /repo's working tree and the harness, then runs the check of one property.

usage: check.py ID [--replay FILE] [--seed N] [--tier quick|thorough] [--scale X] [--repo DIR]
"""
import argparse, concurrent.futures, glob, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
CONTAINERS = ["C22", "C23", "C24"]
STRINGS = ["C08", "C09", "C10", "C11", "C12", "C13", "C25"]
HTTP = ["C02", "C03", "C04", "C05", "C06", "C07", "C14"]
TEMPLATES = ["C15", "C16", "C17", "C18", "C19", "C20", "C21"]
SOURCES = {}
for i in CONTAINERS: SOURCES[i] = ["p_containers.cpp"]
for i in STRINGS: SOURCES[i] = ["p_strings.cpp", "exchange.cpp"]
for i in HTTP: SOURCES[i] = ["p_http.cpp", "exchange.cpp"]
for i in TEMPLATES: SOURCES[i] = ["p_templates.cpp", "tmodel.cpp"]
SOURCES["C01"] = ["p_server.cpp"]
SOURCES["C26"] = []
SOURCES["C27"] = ["p_log.cpp"]
SOURCES["C28"] = ["p_threads.cpp"]
CLOCK = ["gettimeofday", "clock_gettime", "time", "timespec_get"]

SAN = ["-fsanitize=address,bounds,return,unreachable,vla-bound,integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
LIBFLAGS = ["-O1", "-g", "-w", "-std=gnu11", "-pthread", "-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=inline-8bit-counters"] + SAN
HFLAGS = ["-O1", "-g", "-w", "-pthread"] + SAN
WRAPS = ["malloc", "calloc", "realloc", "free", "send", "recv", "mq_open", "mq_unlink", "accept", "listen"]
ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=67108864:malloc_fill_byte=190:"
        "quarantine_size_mb=16:malloc_context_size=1:detect_stack_use_after_return=1:allocator_release_to_os_interval_ms=-1:intercept_send=0")


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, " ".join(cmd) + "\n" + r.stdout


def library_sources(repo):
    out = []
    for s in sorted(glob.glob(os.path.join(repo, "src", "*.c"))):
        if not re.search(r"^\s*(int|void)\s+main\s*\(", open(s, errors="replace").read(), re.M):
            out.append(s)
    return out


def build(pid, repo):
    b = os.path.join(VERIF, "build", pid)
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    jobs = []
    objs = []
    for s in library_sources(repo):
        o = os.path.join(b, "lib_" + os.path.basename(s)[:-2] + ".o")
        jobs.append(["clang"] + LIBFLAGS + ["-I" + os.path.join(repo, "include"), "-c", s, "-o", o])
        objs.append(o)
    o = os.path.join(b, "shim.o")
    jobs.append(["clang", "-std=gnu11"] + HFLAGS + ["-I" + os.path.join(repo, "include"), "-c", os.path.join(VERIF, "harness", "shim.c"), "-o", o])
    objs.append(o)
    for s in ["../engine/engine.cpp", "wraps.cpp"] + SOURCES[pid]:
        o = os.path.join(b, os.path.basename(s)[:-4] + ".opp")
        jobs.append(["clang++", "-std=c++17"] + HFLAGS + ["-c", os.path.join(VERIF, "harness", s), "-o", o])
        objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for rc, log in ex.map(sh, jobs):
            if rc:
                sys.stderr.write(log[-3000:])
                sys.exit(2)
    exe = os.path.join(b, "pbt")
    rc, log = sh(["clang++"] + HFLAGS + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS + (["regcomp", "regfree"] if pid in TEMPLATES else CLOCK if pid == "C27" else [])), "-lm", "-lrt", "-o", exe])
    if rc:
        sys.stderr.write(log[-3000:])
        sys.exit(2)
    return exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scale", default="1")
    ap.add_argument("--time-cap")
    ap.add_argument("--noshrink", action="store_true")
    ap.add_argument("--repo", default="/repo", help="only for trying things out; the registered commands use /repo")
    a = ap.parse_args()
    seed = int(re.sub(r"\D", "", a.seed) or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = os.path.join(VERIF, "evidence", a.id + ".json")
    if a.id == "C26":
        import importlib.util
        spec = importlib.util.spec_from_file_location("pybinding", os.path.join(VERIF, "harness", "pybinding.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        sys.exit(m.main(a.repo, seed, tier, evidence, a.replay, float(a.scale)))
    exe = build(a.id, a.repo)
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", LC_ALL="C", TZ="UTC")
    cmd = [exe, "--id", a.id, "--seed", str(seed), "--tier", tier, "--evidence", evidence, "--replays", os.path.join(VERIF, "replays"),
           "--known", os.path.join(VERIF, "known_findings.txt"), "--scale", a.scale]
    if a.replay:
        cmd += ["--replay", a.replay]
    if a.time_cap:
        cmd += ["--time-cap", a.time_cap]
    if a.noshrink:
        cmd += ["--noshrink"]
    sys.stdout.flush()
    sys.exit(subprocess.run(cmd, env=env, cwd=VERIF).returncode)


if __name__ == "__main__":
    main()
