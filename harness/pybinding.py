#!/usr/bin/env python3
"""C26: /repo/python/greshunkel.py renders like the C library's semantics prescribe.

main() (any Python 3) builds lib38moths.so from the working tree and starts workers under python3-vt; a
worker draws contexts and templates with hypothesis, renders each in a forked child through the binding
and compares with render(), a port of the reference renderer the C template checks use (harness/tmodel).
"""
import collections, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ("hypothesis draws a context (strings of any Unicode text, integers, lists, nested dictionaries, filters) and a template using it; "
        "non-trivial: the template has a directive and the context has a list, a dictionary, a filter or non-ASCII text")

# --- the reference renderer, on bytes ---------------------------------------------------------------------
LOOPC = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
NAMEC = LOOPC | frozenset(b"0123456789")
SPACE = frozenset(b" \t\n\v\f\r")


class Ctx:
    def __init__(self, values, parent=None):
        self.values, self.parent = values, parent

    def find(self, name):
        c = self
        while c:
            if name in c.values and not is_filter(c.values[name]):
                return c.values[name]
            c = c.parent
        return None

    def filter(self, name):
        c = self
        while c:
            if name in c.values and is_filter(c.values[name]):
                return c.values[name]["__filter__"]
            c = c.parent
        raise ValueError("no filter %r" % name)


def is_filter(v):
    return isinstance(v, dict) and "__filter__" in v


def filter_result(k, arg):
    if k == 0:
        return b"no argument" if arg is None else b"<" + arg + b">"
    if k == 1:
        return "unver\u00e4ndert \U0001f600".encode()
    if k == 2:
        return b""
    if k == 3:
        return b"-" * 600 + (arg or b"")
    return (arg or b"").replace(b"a", b"A")


def text_of(v):
    return str(v).encode() if isinstance(v, int) else v.encode()


def word(t, p, chars):
    while p < len(t) and t[p] in chars:
        p += 1
    return p


def unless(c, name):
    v = c.find(name)
    if v is None:
        return True
    if isinstance(v, str):
        return v in ("", "FALSE")
    if isinstance(v, list):
        return not v
    return False


def render(c, t, files):
    out, p = [], 0
    while p < len(t):
        q = word(t, p, SPACE)
        m = re.compile(rb"xXx LOOP ([a-zA-Z_]+) ([a-zA-Z_]+) xXx").match(t, q)
        if m and t.find(b"xXx BBL xXx", m.end()) >= 0:
            end = t.find(b"xXx BBL xXx", m.end())
            meat = t[m.end():end]
            if meat.endswith(b"\n"):
                meat = meat[:-1]
            for item in c.find(m.group(2).decode()):
                out.append(render(Ctx({m.group(1).decode(): item}, c), meat, files))
            p = end + 11
            continue
        m = re.compile(rb"xXx UNLESS (NOT )?@([a-zA-Z_]+) xXx").match(t, q)
        if m and t.find(b"xXx ENDLESS xXx", m.end()) >= 0:
            end = t.find(b"xXx ENDLESS xXx", m.end())
            meat = t[m.end():end]
            if unless(c, m.group(2).decode()) != bool(m.group(1)):
                if m.group(1) and meat.endswith(b"\n"):
                    meat = meat[:-1]
                out.append(render(c, meat, files))
            p = end + 15
            continue
        e = p
        while e < len(t) and t[e] not in b"\r\n":
            e += 1
        out.append(line(c, t[p:e + 1], files))
        p = e + 1
    return b"".join(out)


def line(c, l, files):
    l = re.sub(rb"xXx @([a-zA-Z0-9_]+)\.([a-zA-Z0-9_]+) xXx", lambda m: text_of(c.find(m.group(1).decode())[m.group(2).decode()]), l)
    l = re.sub(rb"xXx @([a-zA-Z0-9_]+) xXx", lambda m: text_of(c.find(m.group(1).decode())), l)
    q = word(l, 0, SPACE)
    m = re.compile(rb"xXx SCREAM ([a-zA-Z_./]+) xXx").match(l, q)
    if m:
        t = files[m.group(1).decode()].encode()
        l = render(c, t[:-1] if t.endswith(b"\n") else t, files)
    out, p = [], 0
    while True:
        s = l.find(b"XxX ", p)
        if s < 0:
            out.append(l[p:])
            return b"".join(out)
        b = word(l, s + 4, NAMEC)
        e = l.find(b" XxX", b)
        if b == s + 4 or e < 0 or not (e == b or l[b] in SPACE):
            out.append(l[p:s + 1])
            p = s + 1
            continue
        arg = l[b:e].lstrip(b" \t\n\v\f\r") if e > b else None
        out += [l[p:s], filter_result(c.filter(l[s + 4:b].decode()), arg)]
        p = e + 4


def expected(ex):
    return render(Ctx(ex["context"]), ex["template"].encode(), ex["files"])


# --- running one case in a child ---------------------------------------------------------------------------
class S(str): pass
class I(int): pass
class L(list): pass


def materialise(v, gs, sub=False):
    """The value to hand over, also as subclasses of the types the binding takes."""
    if sub and not is_filter(v):
        if isinstance(v, dict):
            return collections.OrderedDict((S(k), materialise(x, gs, sub)) for k, x in v.items())
        if isinstance(v, list):
            return L(materialise(x, gs, sub) for x in v)
        if isinstance(v, str):
            return S(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return I(v)
    if is_filter(v):
        k = v["__filter__"]
        return gs.GshklFilterFunc(lambda a, k=k: filter_result(k, a))
    if isinstance(v, dict):
        return {k: materialise(x, gs) for k, x in v.items()}
    if isinstance(v, list):
        return [materialise(x, gs) for x in v]
    return v


def vary(v):
    """The same shape with other values."""
    if isinstance(v, bool): return v
    if isinstance(v, str): return v[::-1] if v != v[::-1] else v[1:]
    if isinstance(v, int): return v ^ 1
    if isinstance(v, list): return [vary(x) for x in v] + v[:1]
    if isinstance(v, dict) and not is_filter(v): return {k: vary(x) for k, x in v.items()}
    return v


def run_case(ex, gs):
    """None, or what is wrong."""
    templates, contexts = [ex["template"], ex.get("template2", ex["template"])], [ex["context"], vary(ex["context"]) if ex.get("vary") else ex["context"]]
    want = [[render(Ctx(c), t.encode(), ex["files"]) for c in contexts] for t in templates]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(20)
            import gc, warnings
            gc.freeze()  # collect what this case makes, not what hypothesis holds
            warnings.simplefilter("ignore")
            for n, s in ex["files"].items():
                with open(n, "wb") as f:
                    f.write(s.encode())
            def go():
                cs = [gs.Context({k: materialise(v, gs, ex.get("subclass")) for k, v in c.items()}) for c in contexts]
                other = gs.Context({"unrelated": "another context", "items": ["x"] * 5})
                ts = [gs.Template("".join(t)) for t in templates]
                gc.collect()
                for i, (a, b) in enumerate(((0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (0, 0))):
                    if i == 5:  # a new object with an old template
                        ts[0] = gs.Template("".join(templates[0]))
                    got = ts[a].render(cs[b])
                    if got.encode() != want[a][b]:
                        g, w_ = got.encode(), want[a][b]
                        d = next((k for k in range(min(len(g), len(w_))) if g[k] != w_[k]), min(len(g), len(w_)))
                        return ("rendering %d (template %d with context %d) differs from byte %d: %r instead of %r" % (i + 1, a + 1, b + 1, d, g[d:d + 60], w_[d:d + 60])).encode()
                    if i % 2:
                        gs.Template("xXx @unrelated xXx").render(other)
                    gc.collect()
                return b""
            if ex.get("thread"):  # memory of another thread's heap: addresses that do not fit into 32 bits
                import threading
                box = []

                def run():
                    try:
                        box.append(go())
                    except BaseException as e:
                        box.append(("exception %s: %s" % (type(e).__name__, e)).encode())
                th = threading.Thread(target=run)
                th.start()
                th.join()
                res = box[0]
            else:
                res = go()
            os.write(w, b"done" + res[:3000])
        except BaseException as e:
            os.write(w, b"done" + ("exception %s: %s" % (type(e).__name__, e)).encode()[:3000])
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data.startswith(b"done"):
        return "the interpreter was killed by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "the interpreter ended with status %d" % os.WEXITSTATUS(st)
    return data[4:].decode(errors="replace") or None


# --- generation ----------------------------------------------------------------------------------------------
def strategies():
    from hypothesis import strategies as st
    odd = "".join(chr(c) for c in range(0x110000) if chr(c).isspace() and c > 127 and c not in (0xa0, 0x2007, 0x202f)) + "\x1c\x1d\x1e\x1f"
    chars = st.characters(blacklist_categories=("Cs",), blacklist_characters="\0xX" + odd)
    common = st.sampled_from("ab c.<>%&/\u00e4\u00df\u20ac\u00a0\u4e16\U0001f600-\n\t")
    plain = st.text(st.one_of(common, common, chars), max_size=30)
    inline = plain.map(lambda s: re.sub(r"[\n\r]", " ", s))
    long = st.tuples(st.sampled_from("a\u00e4\u4e16\U0001f600"), st.integers(0, 600)).map(lambda t: t[0] * (min(t[1], 512) // len(t[0].encode())))
    subtle = st.text(st.sampled_from("\u00a0\u202f\u00ad\u200b\ufeffe\u0301\ufb01\u212b\u0130\u00dfA ?"), min_size=1, max_size=8)  # what a conversion or a normalisation would alter
    value = st.one_of(plain, plain, subtle, long, st.sampled_from(["", "FALSE", "TRUE", "0", "a", "%s", "\\", "&1"]))
    integer = st.one_of(st.integers(-2**31, 2**31 - 1), st.sampled_from([0, -1, 1, 2**31 - 1, -2**31]))
    scalar = st.one_of(value, integer)
    name = st.one_of(st.text(st.sampled_from("abcXYZ_"), min_size=1, max_size=8), st.sampled_from(["a" * 31, "_", "title", "item"]))
    member = st.one_of(name, st.text(st.sampled_from("ab09_"), min_size=1, max_size=6))

    @st.composite
    def example(draw):
        names = draw(st.lists(name, min_size=3, max_size=9, unique=True))
        context, kinds = {}, collections.defaultdict(list)
        shape = draw(st.lists(member, min_size=1, max_size=3, unique=True))
        for n in names:
            k = draw(st.sampled_from(["str", "str", "int", "list", "dicts", "dict", "filter"]))
            if k == "str": context[n] = draw(value)
            elif k == "int": context[n] = draw(integer)
            elif k == "list": context[n] = draw(st.lists(scalar, max_size=draw(st.sampled_from([3, 12])))) * draw(st.sampled_from([1, 1, 1, 2, 20]))
            elif k == "dicts": context[n] = [{m: draw(scalar) for m in shape} for _ in range(draw(st.integers(0, 4)))]
            elif k == "dict":
                context[n] = {m: draw(scalar) for m in shape}
                if draw(st.booleans()): context[n]["deep"] = {"inner": draw(scalar), "list": draw(st.lists(scalar, max_size=3))}
            else: context[n] = {"__filter__": draw(st.integers(0, 4))}
            kinds[k].append(n)
        files = {}
        scalars = kinds["str"] + kinds["int"]
        labels = set()

        def piece(loop_var, loop_kind):
            opts = ["text", "text"] + ["var"] * 2 * bool(scalars) + ["dot"] * bool(kinds["dict"]) + ["filter"] * 2 * bool(kinds["filter"])
            if loop_var: opts += ["item"] * 3
            o = draw(st.sampled_from(opts))
            if o == "text": return draw(inline)
            if o == "var": labels.add("variable"); return "xXx @%s xXx" % draw(st.sampled_from(scalars))
            if o == "dot": labels.add("member"); return "xXx @%s.%s xXx" % (draw(st.sampled_from(kinds["dict"])), draw(st.sampled_from(shape)))
            if o == "item":
                labels.add("loop item")
                return "xXx @%s xXx" % loop_var if loop_kind == "list" else "xXx @%s.%s xXx" % (loop_var, draw(st.sampled_from(shape)))
            labels.add("filter")
            arg = draw(st.sampled_from(["", " a", " aa bb", " \u00e4", "  a "] + [" xXx @%s xXx" % n for n in scalars if isinstance(context[n], int)]))
            return "XxX %s%s XxX" % (draw(st.sampled_from(kinds["filter"])), arg)

        def lines(loop_var=None, loop_kind=None):
            s = ""
            for _ in range(draw(st.integers(0, 3))):
                s += "".join(piece(loop_var, loop_kind) for _ in range(draw(st.integers(0, 4)))) + draw(st.sampled_from(["\n", "\n", "\r\n"]))
            return s

        t = ""
        for _ in range(draw(st.integers(1, 6))):
            o = draw(st.sampled_from(["lines", "lines", "loop", "unless", "scream"]))
            if o == "loop" and kinds["list"] + kinds["dicts"]:
                labels.add("loop")
                a = draw(st.sampled_from(kinds["list"] + kinds["dicts"]))
                v = draw(name.filter(lambda n: n not in context and n != "deep"))
                t += draw(st.sampled_from(["", "  ", "\t"])) + "xXx LOOP %s %s xXx" % (v, a) + draw(st.sampled_from(["", "\n"])) + lines(v, "list" if a in kinds["list"] else "dicts") + "xXx BBL xXx" + draw(st.sampled_from(["", "\n"]))
            elif o == "unless":
                labels.add("condition")
                n = draw(st.sampled_from([n for n in names if n not in kinds["filter"]] + ["absent"]))
                t += "xXx UNLESS %s@%s xXx" % (draw(st.sampled_from(["", "NOT "])), n) + draw(st.sampled_from(["", "\n"])) + lines() + "xXx ENDLESS xXx" + draw(st.sampled_from(["", "\n"]))
            elif o == "scream":
                labels.add("include")
                f = draw(st.sampled_from(["inc.html", "b.tpl"]))
                if f not in files:
                    files[f] = lines() or "empty"
                t += "xXx SCREAM %s xXx\n" % f
            else:
                t += lines()
        if draw(st.booleans()):
            t += "".join(piece(None, None) for _ in range(draw(st.integers(0, 3))))
        th = draw(st.booleans())
        if th: labels.add("in another thread")
        sc = draw(st.sampled_from([False, False, True]))
        if sc: labels.add("values of derived types")
        extra = "".join(piece(None, None) for _ in range(draw(st.integers(0, 2)))) + "another ending"
        t2 = draw(st.sampled_from([t + extra, t + extra, t + "\n" + extra, extra + "\n" + t]))
        return {"template": t, "template2": t2, "vary": draw(st.booleans()), "context": context, "files": files, "thread": th, "subclass": sc, "labels": sorted(labels)}
    return example()


def acceptable(ex):
    # Values and text must not form template syntax together; strings within the documented 512 bytes.
    def strings(v):
        if isinstance(v, str): yield v
        elif isinstance(v, dict) and not is_filter(v):
            for x in v.values(): yield from strings(x)
        elif isinstance(v, list):
            for x in v: yield from strings(x)
    try:
        return all(len(s.encode()) <= 512 for s in strings(ex["context"])) and len(expected(ex)) < 200000 and len(expected(dict(ex, template=ex["template2"]))) < 200000
    except (ValueError, KeyError, TypeError, RecursionError):
        return False


def nontrivial(ex):
    return bool(set(ex["labels"]) - {"in another thread", "values of derived types"}) and (any(isinstance(v, (list, dict)) for v in ex["context"].values()) or any(isinstance(v, str) and not v.isascii() for v in ex["context"].values()))


def load(repo):
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(repo, "python"))
    import greshunkel
    return greshunkel


def worker(repo, out, wseed, cases, replay):
    gs = load(repo)
    if replay:
        ex = json.load(open(replay))["example"]
        msg = run_case(ex, gs)
        json.dump({"msg": msg}, open(out, "w"))
        return
    from hypothesis import given, settings, seed, HealthCheck, Phase
    res = {"evaluations": 0, "hashes": [], "labels": collections.Counter(), "samples": [], "fail": None, "msg": None}
    deadline = [None]

    @seed(wseed)
    @settings(max_examples=cases, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False)
    @given(strategies())
    def test(ex):
        if not acceptable(ex):
            return
        if deadline[0] and time.time() > deadline[0]:
            return
        res["evaluations"] += 1
        for l in ex["labels"]:
            res["labels"][l] += 1
        if nontrivial(ex):
            res["hashes"].append(hashlib.md5(json.dumps(ex, sort_keys=True).encode()).hexdigest()[:12])
            if len(res["samples"]) < 2 and res["evaluations"] > 20:
                res["samples"].append(json.dumps(ex, ensure_ascii=True)[:900])
        msg = run_case(ex, gs)
        if msg:
            if deadline[0] is None:
                deadline[0] = time.time() + 40  # for shrinking
            if res["fail"] is None or len(json.dumps(ex)) <= len(json.dumps(res["fail"])):
                res["fail"], res["msg"] = ex, msg
            raise AssertionError(msg)
    try:
        test()
    except BaseException as e:
        if res["fail"] is None:
            raise
    json.dump(res, open(out, "w"))


def main(repo, seed, tier, evidence, replay, scale):
    t0 = time.time()
    b = os.path.join(VERIF, "build", "C26")
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    src = [s for s in sorted(glob.glob(os.path.join(repo, "src", "*.c"))) if not re.search(r"^\s*(int|void)\s+main\s*\(", open(s, errors="replace").read(), re.M)]
    r = subprocess.run(["clang", "-O1", "-g", "-w", "-std=gnu11", "-pthread", "-fPIC", "-shared", "-ftrivial-auto-var-init=pattern", "-I" + os.path.join(repo, "include")] + src
                       + ["-Wl,-soname,lib38moths.so", "-lm", "-lrt", "-o", os.path.join(b, "lib38moths.so")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-3000:])
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-py-")
    py = shutil.which("python3-vt") or sys.executable

    def start(i, extra):
        d = os.path.join(scratch, "w%d" % i)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, LD_LIBRARY_PATH=b, PYTHONDONTWRITEBYTECODE="1", PYTHONMALLOC="malloc", MALLOC_PERTURB_="190", PYTHONHASHSEED="0", HYPOTHESIS_STORAGE_DIRECTORY=d)
        env["LC_ALL"] = "C.UTF-8" if i % 2 == 0 else "C"
        env["PYTHONCOERCECLOCALE"], env["PYTHONUTF8"] = "0", "1"
        err = open(os.path.join(scratch, "err%d" % i), "wb")
        return subprocess.Popen([py, os.path.abspath(__file__), "--worker", os.path.abspath(repo), os.path.join(scratch, "out%d" % i)] + extra, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=err)

    def confirm(path, times=5):
        msgs = []
        for k in range(times):
            p = start(100 + k, ["--replay", os.path.abspath(path)])
            p.wait()
            o = os.path.join(scratch, "out%d" % (100 + k))
            if p.returncode != 0 or not os.path.exists(o):
                raise RuntimeError("replay worker failed")
            m = json.load(open(o))["msg"]
            if m: msgs.append(m)
        return msgs
    try:
        if replay:
            msgs = confirm(replay, 3)
            print("C26: %d of 3 replays fail%s" % (len(msgs), ": " + msgs[0] if msgs else ""))
            if msgs:
                print("VIOLATION property=C26 replay=%s" % os.path.abspath(replay))
            return 1 if msgs else 0
        n = min(8, len(os.sched_getaffinity(0)))
        cases = max(5, int((250 if tier == "quick" else 9000) * scale))
        ps = [start(i, ["--seed", str(seed * 1000 + i), "--cases", str(cases)]) for i in range(n)]
        for p in ps: p.wait()
        tot = {"evaluations": 0, "hashes": set(), "labels": collections.Counter(), "samples": []}
        fails, broken = [], 0
        for i, p in enumerate(ps):
            o = os.path.join(scratch, "out%d" % i)
            if p.returncode != 0 or not os.path.exists(o):
                # Importing the binding or loading the library may be what fails.
                sys.stderr.write(open(os.path.join(scratch, "err%d" % i), errors="replace").read()[-1500:])
                broken += 1
                continue
            r = json.load(open(o))
            tot["evaluations"] += r["evaluations"]; tot["hashes"].update(r["hashes"]); tot["labels"].update(r["labels"]); tot["samples"] += r["samples"]
            if r["fail"]: fails.append((len(json.dumps(r["fail"])), r["fail"], r["msg"]))
        rc, unconfirmed = 0, []
        for _, ex, msg in sorted(fails, key=lambda f: f[0])[:3]:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "C26-seed%d-%s.json" % (seed, tier))
            json.dump({"property": "C26", "message": msg, "example": ex}, open(path, "w"), indent=1)
            msgs = confirm(path)
            if msgs:
                print("C26: %s\ncase: %s\nVIOLATION property=C26 replay=%s" % (msg, json.dumps(ex)[:1500], path))
                rc = 1
                break
            unconfirmed.append(msg)
        if broken and rc == 0:
            return 2
        json.dump({"property": "C26", "tier": tier, "seed": seed, "level": "exploration", "coverage": {
            "evaluations": tot["evaluations"], "distinct_nontrivial": len(tot["hashes"]), "rule": RULE, "cases_with_label": dict(sorted(tot["labels"].items())),
            "workers": n, "renderings_per_case": 6, "unconfirmed_failures": unconfirmed, "samples": tot["samples"][:8]},
            "assumptions": ["strings are at most 512 bytes when encoded and values do not contain template syntax (C15's known finding)", "filters are wrapped with GshklFilterFunc, as in python/test.py"],
            "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}, open(evidence, "w"), indent=1)
        if rc == 0:
            print("C26: held on %d cases (%d distinct non-trivial), seed %d, %s tier, %.1f s" % (tot["evaluations"], len(tot["hashes"]), seed, tier, time.time() - t0))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__" and sys.argv[1:2] == ["--worker"]:
    a = sys.argv[2:]
    opts = dict(zip(a[2::2], a[3::2]))
    worker(a[0], a[1], int(opts.get("--seed", 1)), int(opts.get("--cases", 10)), opts.get("--replay"))
