#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): small edits of /repo's sources that still compile and pass
the repository's tests; reports which properties' workloads notice each one.

  mutate.py OUT.jsonl WORKERS [file-substring] [start] [stride]
Works on copies under /tmp/mut."""
import json, os, re, shutil, subprocess, sys, signal, random
from concurrent.futures import ThreadPoolExecutor
import threading
OUT, W = sys.argv[1], int(sys.argv[2])
SUB = sys.argv[3] if len(sys.argv) > 3 else ""
START = int(sys.argv[4]) if len(sys.argv) > 4 else 0
STRIDE = int(sys.argv[5]) if len(sys.argv) > 5 else 1
BASE = os.environ.get("MUTDIR", "/tmp/mut")
FILES = ["src/approxeq.rs", "src/internalutil.rs", "src/matrix.rs", "src/util.rs"] + ["src/decomp/%s.rs" % x for x in ("cholesky", "lu", "qr", "svd", "eigen")]


def code_lines(path):
    """indices of lines outside tests and comments"""
    ls = open(path).read().split("\n")
    res, intest, depth = [], False, 0
    for i, l in enumerate(ls):
        s = l.strip()
        if s.startswith("#[test]"):
            intest, depth, seen = True, 0, False
            continue
        if intest:
            depth += l.count("{") - l.count("}")
            if "{" in l: seen = True
            if seen and depth <= 0: intest = False
            continue
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#[") or s.startswith("impl") or s.startswith("pub fn") or s.startswith("fn ") or s in "{}" or s.startswith("type ") or s.startswith("extern"):
            continue
        res.append(i)
    return ls, res


SWAPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
         (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"num::zero\(\)", ["num::one()"]), (r"num::one\(\)", ["num::zero()"]), (r"num::abs\(", ["("]), (r"\.abs\(\)", [""]), (r" = - ", [" = "]), (r"\(- ", ["("]), (r"-(?=[a-z(])", [""]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
         (r"\.\.=?", None), (r"\b(\d+)\b(?!\.)", None), (r"\.rev\(\)", [""]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]), (r"\bhypot\(", ["num::abs("]),
         (r"\.no_rows\b", [".cols()"]), (r"\.cols\(\)", [".rows()"]), (r"\.rows\(\)", [".cols()"]), (r"\bnu\b", ["n"]), (r"!(?=[a-z(])", [""]), (r"\bself\.(?=[a-z])", None)]
IDS = ["i", "j", "k", "m", "n", "p", "l", "row", "col", "idx", "cs", "sn", "f", "g", "x", "y", "z", "r", "s", "q", "t", "w", "e", "h", "c", "nu", "nct", "nrt", "ks", "p1"]


def mutants(path):
    ls, idx = code_lines(path)
    for i in idx:
        l = ls[i]
        out = []
        s = l.split("//")[0]
        for pat, reps in SWAPS:
            for m in re.finditer(pat, s):
                if pat.startswith(r"\.\."):
                    # upper or lower bound of a range
                    a = s[:m.end()]
                    mm = re.match(r"(\([^()]*\)|[\w.]+(?:\(\))?)", s[m.end():])
                    if mm:
                        e = m.end() + mm.end()
                        out.append(a + "(" + mm.group(1) + " - 1)" + s[e:])
                        out.append(a + "(" + mm.group(1) + " + 1)" + s[e:])
                    mm = re.search(r"(\([^()]*\)|[\w.]+)$", s[:m.start()])
                    if mm:
                        out.append(s[:mm.start()] + "(" + mm.group(1) + " + 1)" + s[m.start():])
                elif pat.startswith(r"\b(\d+)"):
                    v = int(m.group(1))
                    out.append(s[:m.start()] + str(v + 1) + s[m.end():])
                    if v: out.append(s[:m.start()] + str(v - 1) + s[m.end():])
                elif reps is None:
                    continue
                else:
                    for r in reps:
                        out.append(s[:m.start()] + r + s[m.end():])
        for m in re.finditer(r"\[([a-z]\w*)\]", s):
            out.append(s[:m.start()] + "[" + m.group(1) + " + 1]" + s[m.end():])
        # identifiers swapped for others on the same line
        ids = [x for x in dict.fromkeys(re.findall(r"\b[a-z]\w?\b", s)) if x in IDS]
        for m in re.finditer(r"\b[a-z]\w?\b", s):
            if m.group(0) in IDS and not s[:m.start()].endswith("let ") and not s[:m.start()].endswith("mut "):
                for o in ids:
                    if o != m.group(0): out.append(s[:m.start()] + o + s[m.end():])
        if re.match(r"\s*[^ ].*;\s*$", s) and not s.strip().startswith("let ") and not s.strip().startswith("return"):
            out.append("")
        m = re.match(r"(\s*(?:\} else )?if )(.*)( \{.*)$", s)
        if m and " let " not in s:
            out.append(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3))
            out.append(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3))
        seen = {s}
        for o in out:
            if o not in seen:
                seen.add(o)
                yield i, l, o


ENV = dict(os.environ, PATH="/usr/local/bin:/usr/bin:/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never")


def run(cmd, cwd, to, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=os.setsid)
    try:
        o, _ = p.communicate(timeout=to)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -999, ""
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()


def setup(w):
    d = os.path.join(BASE, "w%d" % w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("git -C /repo archive --prefix=repo/ HEAD | tar -x -C %s" % d, shell=True)
    shutil.copytree("/verif/harness", d + "/harness", ignore=shutil.ignore_patterns("target"))
    c = open(d + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % d)
    open(d + "/harness/Cargo.toml", "w").write(c)
    return d


lock = threading.Lock()
props = ["C%02d" % i for i in range(1, 29) if i != 26]
SCALES = {"C08": .3, "C20": .3, "C21": .15, "C01": .5, "C06": .5, "C24": .2, "C25": .3}


FIRST = {"matrix": [2, 3, 4, 5, 6, 22, 23, 28, 25, 16, 19], "util": [24], "approxeq": [23], "internalutil": [21, 14], "cholesky": [12, 13, 6], "lu": [7, 8, 9, 6], "qr": [10, 11, 6],
         "svd": [14, 15, 20, 16, 19, 27], "eigen": [18, 17, 20, 27, 6]}


def order(f):
    a = ["C%02d" % x for x in FIRST[os.path.basename(f)[:-3]]]
    return a + [p for p in props if p not in a]


def one(d, f, i, old, new):
    path = os.path.join(d, "repo", f)
    orig = open(path).read()
    ls = orig.split("\n")
    assert ls[i] == old
    ls[i] = new
    open(path, "w").write("\n".join(ls))
    try:
        e = dict(ENV, CARGO_TARGET_DIR=d + "/tt")
        rc, o = run(["cargo", "test", "--offline", "--no-run"], d + "/repo", 120, e)
        if rc != 0: return {"r": "no-compile"}
        rc, o = run(["cargo", "test", "--offline", "--", "--test-threads", "2"], d + "/repo", 40, e)
        if rc != 0: return {"r": "tests"}
        e = dict(ENV, CARGO_TARGET_DIR=d + "/ht", LAMON_SCRATCH=d)
        rc, o = run(["cargo", "build", "--release", "--offline"], d + "/harness", 200, e)
        if rc != 0: return {"r": "harness-no-compile", "o": o[-500:]}
        det, odd = [], []
        for p in order(f):
            if det and not os.environ.get("ALL"): break
            rc, o = run([d + "/ht/release/lamon", "run", "--property", p, "--scale", str(SCALES.get(p, 1)), "--threads", "2", "--case-cpu", "6", "--deadline", "40"], d, 90, e)
            if rc in (1, 40) or rc < 0 and rc != -999: det.append(p)
            elif rc == 101 or rc == 134: det.append(p + "!")
            elif rc != 0: odd.append((p, rc, o[-200:]))
        return {"r": "detected" if det else "SURVIVED", "by": det, "odd": odd}
    finally:
        open(path, "w").write(orig)


def main():
    todo = []
    for f in FILES:
        if SUB in f:
            for k, x in enumerate(mutants("/repo/" + f)): todo.append((f,) + x)
    todo = todo[START::STRIDE]
    random.Random(5).shuffle(todo)
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            j = json.loads(l); done.add((j["f"], j["line"], j["new"]))
    todo = [t for t in todo if (t[0], t[1] + 1, t[3]) not in done]
    print(len(todo), "mutants", flush=True)
    it = iter(todo)

    def worker(w):
        d = setup(w)
        while True:
            with lock:
                t = next(it, None)
            if t is None: return
            f, i, old, new = t
            try: r = one(d, f, i, old, new)
            except Exception as x: r = {"r": "error", "o": repr(x)}
            r.update({"f": f, "line": i + 1, "old": old, "new": new})
            with lock:
                open(OUT, "a").write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    subprocess.call("rm -rf %s/w*" % BASE, shell=True)


if os.environ.get("COUNT"):
    for f in FILES: print(f, sum(1 for _ in mutants("/repo/" + f)))
else:
    main()
