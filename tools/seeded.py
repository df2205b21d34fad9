#!/usr/bin/env python3
"""Confirms planted bugs (development aid, no check uses it).

usage: seeded.py [--check] [--tier T] [ID...]
For each /verif/seeded/<id>: the patch applies to /repo's HEAD, builds, keeps the stable tests passing, and the
demonstration passes without it and fails with it; with --check, also runs the property's check against the patched copy.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd=None, timeout=900, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def tests(copy):
    """The verdicts of the repository's own tests, as its runners print them."""
    out = []
    for b, start in (("greshunkel_test", r"(test_\w+): "), ("unit_test", r"----- (test_\w+) -----")):
        rc, o = run(["stdbuf", "-o0", "./" + b], cwd=copy, timeout=120)
        current = None
        for m in re.finditer(start + r"|\x1b\[3[12]m(Passed|Failed)\.\x1b\[0m", o):
            if m[1]:
                current = current or m[1]
            elif current:
                out.append((current, m[2]))
                current = None
    lib = [f for f in os.listdir(copy) if f.startswith("lib38moths.so.")][0]
    if not os.path.exists(os.path.join(copy, "lib38moths.so")):
        os.symlink(lib, os.path.join(copy, "lib38moths.so"))
    rc, o = run(["/usr/bin/python3", "python/test.py"], cwd=copy, timeout=120, env=dict(os.environ, LD_LIBRARY_PATH=copy))
    return out + [("python/test.py", rc)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--check", action="store_true")
    ap.add_argument("--nodemo", action="store_true")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    ids = a.ids or sorted(os.path.basename(d) for d in glob.glob(os.path.join(VERIF, "seeded", "*")))
    base = tempfile.mkdtemp(prefix="seeded-")
    try:
        clean = os.path.join(base, "clean")
        run(["git", "clone", "-q", "/repo", clean])
        rc, o = run(["make", "-s", "all"], cwd=clean)
        assert rc == 0, o[-2000:]
        ref = tests(clean)
        bad = 0
        for i in ids:
            d = os.path.join(VERIF, "seeded", i)
            meta = json.load(open(os.path.join(d, "meta.json")))
            copy = os.path.join(base, "copy")
            shutil.rmtree(copy, ignore_errors=True)
            run(["git", "clone", "-q", "/repo", copy])
            rc, o = run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy)
            if rc:
                print(i, "PATCH DOES NOT APPLY", o[-300:]); bad += 1; continue
            msg = []
            rc, o = run(["make", "-s", "all"], cwd=copy)
            if rc:
                print(i, "DOES NOT BUILD", o[-1500:]); bad += 1; continue
            now = tests(copy)
            if now != ref:
                msg.append("TESTS DIFFER: %s" % sorted(set(ref) - set(now)))
            if not a.nodemo:
                r0, o0 = run(["bash", os.path.join(d, "demo.sh")], cwd=clean, timeout=300)
                r1, o1 = run(["bash", os.path.join(d, "demo.sh")], cwd=copy, timeout=300)
                if r0 != 0: msg.append("DEMO FAILS ON CLEAN TREE: " + o0[-300:])
                if r1 == 0: msg.append("DEMO PASSES WITH THE BUG")
                if "error:" in o1 and "demo.c" in o1: msg.append("DEMO COMPILE: " + o1[-300:])
            s = "ok" if not msg else "; ".join(msg)
            if msg: bad += 1
            if a.check:
                p = meta["property"]
                rc, o = run(["python3", "check.py", p, "--repo", copy, "--tier", a.tier], cwd=VERIF, timeout=1800)
                v = [l for l in o.splitlines() if l.startswith(p + ": ")]
                s += " | %s rc=%d %s" % (p, rc, (v[-1][:140] if v else o[-140:]).replace("\n", " "))
                if rc != 1: s += "   <<< MISSED"
            print(i, s, flush=True)
        print("%d with problems" % bad)
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
