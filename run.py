#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working tree, runs the monitored
workload, judges what the monitors reported, writes evidence/<id>.json.

  run.py <ID> [quick|thorough]     exit 0 held, 1 violated (VIOLATION line), 2 no verdict
  run.py --replay <file>           runs a recorded violation again
  run.py --setup                   builds everything once
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, os.path.join(VERIF, "macro"))

# How much of the standard quick / thorough workload (lamon list) each check runs.
QUICK = {"C01": 40, "C02": 60, "C03": 60, "C04": 36, "C05": 26, "C06": 30, "C07": 40, "C08": 14, "C09": 40, "C10": 16, "C11": 50,
         "C12": 40, "C13": 50, "C14": 16, "C15": 50, "C16": 60, "C17": 50, "C18": 40, "C19": 30, "C20": 5, "C21": 1,
         "C22": 60, "C23": 60, "C24": 30, "C25": 14, "C27": 25, "C28": 100}
THOROUGH = {}       # everyone runs until the deadline
# These also run in the profile users ship (no overflow checks, no debug assertions).
SHIP = {"C01", "C02", "C03", "C04", "C05", "C06", "C24", "C25", "C28"}
NO_VERDICT = 2

ASSUME = [
    "rustc, the standard library, num and rand behave as documented",
    "the reference models and error bounds in /verif/harness are right (calibrated: silent on the unchanged tree, planted bugs detected)",
    "nothing is claimed beyond the executions counted here",
]


class NoVerdict(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "MIRIFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def limits(mem_gb=None, cpu_s=None):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
    return f


class Done:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out


def sh(cmd, timeout, cwd=VERIF, e=None, mem_gb=None, cpu_s=None):
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, preexec_fn=limits(mem_gb, cpu_s))
        to = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()

        def tail(f):
            n = f.seek(0, 2)
            f.seek(max(0, n - 400000))
            return f.read().decode("utf-8", "replace")
        return Done(p.returncode, tail(fo), tail(fe), to)


def build(kind="release"):
    """Compiles the harness (and with it /repo) and returns the program."""
    if kind in ("release", "ship"):
        d = sh(["cargo", "build", "--offline", "--profile", kind], 600, HARNESS)
        exe = os.path.join(TARGET, kind, "lamon")
    elif kind == "asan":
        e = env({"RUSTFLAGS": "-Zsanitizer=address -Cdebuginfo=1", "CARGO_TARGET_DIR": os.path.join(TARGET, "asan")})
        e.pop("RUSTUP_TOOLCHAIN")
        d = sh(["cargo", "+nightly", "build", "--offline", "--release", "--features", "sysalloc", "--target", "x86_64-unknown-linux-gnu"], 600, HARNESS, e)
        exe = os.path.join(TARGET, "asan", "x86_64-unknown-linux-gnu", "release", "lamon")
    if d.rc != 0 or d.timed_out:
        raise NoVerdict("the %s build failed:\n%s" % (kind, d.err[-3000:]))
    return exe


class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.viol = []      # (what, replay command)
        self.findings = {}
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "observed": {}, "runs": []}
        self.notes = []
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)

    def left(self, total=840):
        return max(5, total - (time.time() - self.t0))

    # ---------------------------------------------------------------- one workload run
    def lamon(self, exe, label, tier=None, scale=None, seed=None, deadline=None, judge=True, wall=None, prop=None, sanitizer=False):
        tier = tier or self.tier
        out = os.path.join(self.scratch, "out.json")
        cmd = [exe, "run", "--property", prop or self.id, "--tier", tier, "--seed", str(seed if seed is not None else self.seed)]
        if scale:
            cmd += ["--scale", str(scale)]
        base = list(cmd)
        if deadline:
            cmd += ["--deadline", str(int(deadline))]
        e = env({"LAMON_SCRATCH": self.scratch, "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0"})
        if os.path.exists(out):
            os.remove(out)
        wall = wall or self.left()
        d = sh(cmd + ["--out", out], wall, e=e, mem_gb=None if sanitizer else 16)
        if sanitizer and "AddressSanitizer" in d.err:
            self.viol.append(("%s: AddressSanitizer: %s" % (label, brief(d.err, "AddressSanitizer")), cmd))
            return None
        if d.rc == 40:
            m = re.search(r"STUCK (\S+)", d.out)
            self.stuck(exe, base, m.group(1) if m else None, e, label)
            return None
        if d.timed_out:
            raise NoVerdict("%s did not finish within %d s" % (label, wall))
        if d.rc not in (0, 1):
            if d.rc == 3:
                raise NoVerdict("%s: the harness itself failed: %s" % (label, d.err[-1500:]))
            self.crashed(exe, base, d, e, label, sanitizer)
            return None
        js = [json.loads(l) for l in open(out) if l.strip()]
        for j in js:
            self.take(j, exe, base, label, judge, prop)
        return js

    def take(self, j, exe, base, label, judge, prop):
        c = self.cov
        run = {"run": label, "cases": j["evaluations"], "families": j["families"]}
        if prop:
            run["property"] = j["property"]
        c["runs"].append(run)
        if j["property"] == self.id:
            c["evaluations"] += j["evaluations"]
            c["distinct_nontrivial"] = max(c["distinct_nontrivial"], j["distinct_nontrivial"])
            c["rule"] = j["rule"]
            for k, v in j["observed"].items():
                c["observed"][k] = c["observed"].get(k, 0) + v
            if j["max_error_over_bound"]:
                m = c.setdefault("max_error_over_bound", {})
                for k, v in j["max_error_over_bound"].items():
                    m[k] = max(m.get(k, 0), v)
            for s in j["samples"]:
                if len(c["samples"]) < 6 and s not in c["samples"]:
                    c["samples"].append(s)
        if not judge:
            return
        for k, v in j["findings"].items():
            self.findings[k] = v
        for v in j["violations"]:
            self.viol.append(("%s %s: %s" % (label, v["case"], v["message"]), base + ["--only", v["case"], "-v"]))
        if not j["violations"] and "deadline" not in label:
            miss = [n for n in j["need"] if not j["observed"].get(n)]
            if miss:
                raise NoVerdict("%s observed too little: nothing under %s" % (label, ", ".join(miss)))

    def stuck(self, exe, base, case, e, label):
        if not case:
            raise NoVerdict("%s: stuck, but the case is unknown" % label)
        large = case.startswith("large")    # these get six times as long
        d = sh(base + ["--only", case, "--case-cpu", "40"], self.left() if large else 300, e=e, cpu_s=400 if large else 120)
        if d.rc == 40:
            self.viol.append(("%s %s: does not return (%d s of its own CPU time; other cases take %s)" % (label, case, 240 if large else 40, "seconds" if large else "milliseconds"), base + ["--only", case]))
        elif d.rc == 1:
            self.viol.append(("%s %s: %s" % (label, case, d.out[-800:]), base + ["--only", case]))
        else:
            raise NoVerdict("%s: case %s was slow once, and returned when repeated alone" % (label, case))

    def crashed(self, exe, base, d, e, label, sanitizer):
        """The process died. Find the case by running one at a time with a journal, then run that one alone."""
        why = "signal %d" % -d.rc if d.rc < 0 else "exit %d" % d.rc
        if d.rc == -signal.SIGKILL:
            raise NoVerdict("%s was killed" % label)
        jf = os.path.join(self.scratch, "journal")
        d2 = sh(base + ["--journal", jf, "--threads", "1"], self.left(), e=e, mem_gb=None if sanitizer else 16)
        if d2.timed_out:
            raise NoVerdict("%s died (%s) and could not be traced in time" % (label, why))
        if d2.rc in (0, 1, 3, 40) or d2.rc == -signal.SIGKILL:
            raise NoVerdict("%s died (%s: %s) but not when repeated" % (label, why, d.err[-300:]))
        last = open(jf).read().split("\n")
        last = [x for x in last if x][-1] if any(last) else None
        cmd = base + ["--only", last] if last else base
        d3 = sh(cmd, 200, e=e, mem_gb=None if sanitizer else 16, cpu_s=150)
        alone = d3.rc not in (0, 1, 3, 40)
        self.viol.append(("%s %s: the process died (%s%s): %s" % (label, last, why, "" if alone else "; needs the cases before it", (d3 if alone else d2).err.strip()[-400:].replace("\n", " ")), cmd if alone else base + ["--threads", "1"]))

    # ---------------------------------------------------------------- the special ones
    def macro(self):
        import gen_m
        self.cov["rule"] = "generated programs, each use of the macro with random shape, element type, expression kinds, layout, brackets and context; expected values and evaluation order computed by the generator; non-trivial: more than one element, or refused, or left early"
        plan = [("2021", 350), ("2015", 250)] if self.tier == "quick" else [(x, 500) for x in ("2015", "2018", "2021", "2024")] * 40
        tot = {}
        texts = set()
        for k, (ed, n) in enumerate(plan):
            if k and self.left() < 120:
                self.notes.append("stopped after %d programs for lack of time" % k)
                break
            g = gen_m.Gen(self.seed * 1000 + k, n, ed)
            src = g.program()
            texts.update(g.keys)
            d = os.path.join(VERIF, "work", "m%d" % os.getpid())
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(os.path.join(d, "src"))
            try:
                open(os.path.join(d, "Cargo.toml"), "w").write(gen_m.CARGO % ed)
                shutil.copy(os.path.join(HARNESS, "Cargo.lock"), d)
                main = os.path.join(d, "src", "main.rs")
                open(main, "w").write(src)
                exe = os.path.join(TARGET, "debug", "mprog")
                label = "program %d (edition %s)" % (k, ed)
                b = sh(["cargo", "build", "--offline"], 500, d)
                if b.rc != 0:
                    err = b.err
                    open(main, "w").write("extern crate la; fn main() { let _ = la::Matrix::<i32>::zero(1, 1); }")
                    if sh(["cargo", "build", "--offline"], 500, d).rc != 0 or b.timed_out:
                        raise NoVerdict("the generated program does not build, nor does one without the macro:\n" + err[-2000:])
                    m = re.search(r"^error[^\n]*(?:\n[^\n]+)*", err, re.M)
                    self.viol.append(("%s: well-formed uses do not compile: %s" % (label, (m.group(0) if m else err)[:1500]), self.keep(src, ed, k)))
                    continue
                r = sh([exe], 120, mem_gb=8, cpu_s=100)
                m = re.search(r"DONE uses=(\d+) elements=(\d+) evaluations=(\d+) refused=(\d+) early=(\d+) bad=(\d+)", r.out)
                if r.timed_out or not m:
                    if r.rc < 0 and not r.timed_out and r.rc != -signal.SIGKILL:
                        self.viol.append(("%s died (signal %d): %s" % (label, -r.rc, r.err[-300:]), self.keep(src, ed, k)))
                        continue
                    raise NoVerdict("%s gave no answer (exit %s)" % (label, r.rc))
                for l in r.out.split("\n"):
                    if l.startswith("BAD "):
                        i = int(l.split()[1])
                        self.viol.append(("%s use %d: %s [%s]" % (label, i, l.split(" ", 2)[2], " ".join(g.uses[i].split())[:600]), self.keep(src, ed, k)))
                for n2, v in zip(("uses", "elements compared", "element evaluations observed", "ragged uses refused", "early exits observed"), m.groups()):
                    tot[n2] = tot.get(n2, 0) + int(v)
                for k2, v in g.stats.items():
                    tot[k2] = tot.get(k2, 0) + v
                if len(self.cov["samples"]) < 4:
                    self.cov["samples"].append(" ".join(g.uses[0].split())[:400])
            finally:
                shutil.rmtree(d, ignore_errors=True)
        self.cov["evaluations"] = tot.get("uses", 0)
        self.cov["distinct_nontrivial"] = len(texts)
        self.cov["observed"] = tot
        if not self.viol:
            for n in ("element evaluations observed", "ragged uses refused", "early exits observed", "ragged with a total that divides evenly"):
                if not tot.get(n):
                    raise NoVerdict("nothing under: " + n)

    def keep(self, src, ed, k):
        os.makedirs(REPLAYS, exist_ok=True)
        p = os.path.join(REPLAYS, "C26-program-%d.rs" % k)
        open(p, "w").write(src)
        return ["macro-program", p, ed]

    def miri(self, plan):
        """Runs parts of the workload in the interpreter, several at a time."""
        e = env({"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-deterministic-floats", "CARGO_TARGET_DIR": os.path.join(TARGET, "miri"), "LAMON_SCRATCH": self.scratch})
        e.pop("RUSTUP_TOOLCHAIN")
        cargo = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--", "run"]
        b = sh(cargo[:-1] + ["list"], 500, HARNESS, e)
        if b.rc != 0 or b.timed_out:
            raise NoVerdict("the interpreter does not run the harness:\n" + b.err[-2000:])
        running, todo, done, cases, ops = [], list(plan), 0, 0, 0
        cut = 0
        while todo or running:
            while todo and len(running) < 8 and self.left() > 60:
                a = todo.pop(0)
                fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
                cmd = cargo + ["--tier", "tiny"] + a
                running.append((a, subprocess.Popen(cmd, cwd=HARNESS, env=e, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, preexec_fn=limits()), fo, fe, cmd, time.time()))
            if todo and self.left() <= 60 and not running:
                cut += len(todo)
                break
            time.sleep(0.2)
            for x in list(running):
                a, p, fo, fe, cmd, t = x
                if p.poll() is None:
                    if self.left() <= 20:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        running.remove(x)
                        cut += 1
                    continue
                running.remove(x)
                fo.seek(0), fe.seek(0)
                out, err = fo.read().decode("utf-8", "replace"), fe.read().decode("utf-8", "replace")
                if "Undefined Behavior" in err or "memory leaked" in err or "deadlock" in err:
                    self.viol.append(("under Miri (%s): %s" % (" ".join(a), brief(err, "error")), ["miri"] + cmd))
                    continue
                m = re.findall(r"^(C\d\d) evals (\d+) viol (\d+) harness (\d+)", out, re.M)
                if p.returncode not in (0, 1, 3) or not m:
                    raise NoVerdict("under Miri (%s): exit %s: %s" % (" ".join(a), p.returncode, err[-1500:]))
                done += 1
                for (pid, n, v, h) in m:
                    cases += int(n)
                    if pid == self.id and int(v):
                        self.viol.append(("under Miri: " + " ".join(l.strip() for l in out.split("\n") if "VIOL" in l)[:800], ["miri"] + cmd))
        self.cov["observed"]["cases interpreted by Miri without undefined behaviour"] = cases
        self.cov["runs"].append({"run": "Miri", "cases": cases, "parts": done, "parts cut for lack of time": cut})
        if not self.viol and cases == 0:
            raise NoVerdict("Miri observed nothing")

    def memory(self):
        exe = build("release")
        quick = self.tier == "quick"
        self.lamon(exe, "native, debug assertions", scale=QUICK["C21"] if quick else 1, deadline=60 if quick else 120)
        self.lamon(build("ship"), "native, as shipped", scale=1 if quick else 0.5, deadline=60)
        if self.viol:
            return
        asan = build("asan")
        self.lamon(asan, "AddressSanitizer, every property's workload", tier="quick", scale=0.25 if quick else 2, prop="all", judge=False, sanitizer=True, deadline=4 if quick else 12)
        self.lamon(asan, "AddressSanitizer, all operations", tier="quick", scale=0.3 if quick else 4, sanitizer=True, deadline=30 if quick else 80, judge=False)
        if self.viol:
            return
        s = str(self.seed)
        if quick:
            plan = [["--property", "C21", "--seed", s, "--slice", "%d/8" % k] for k in range(8)]
        else:
            plan = [["--property", "C21", "--seed", s, "--slice", "%d/16" % k] for k in range(16)]
            plan += [["--property", "C%02d" % k, "--seed", s] for k in range(1, 29) if k not in (20, 21, 26)]
            plan += [["--property", "C21", "--seed", str(self.seed + 1 + i), "--slice", "%d/8" % k] for i in range(6) for k in range(8)]
        self.miri(plan)

    def plain(self):
        quick = self.tier == "quick"
        scale = (QUICK if quick else THOROUGH).get(self.id, 8 if quick else 30)
        exe = build("release")
        ship = self.id in SHIP or not quick
        wall = 150 if quick else (380 if ship else 700)
        self.lamon(exe, "overflow and debug checks on", scale=scale, deadline=wall)
        if ship and not self.viol:
            self.lamon(build("ship"), "as shipped", scale=scale / 2, seed=self.seed + 7919, deadline=wall * 0.7)

    # ---------------------------------------------------------------- verdict
    def run(self):
        try:
            {"C21": self.memory, "C26": self.macro}.get(self.id, self.plain)()
            problem = None
        except NoVerdict as x:
            problem = str(x)
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        listed = known(self.id)
        unlisted = []
        for k, v in sorted(self.findings.items()):
            if k in listed:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.id, listed[k], k))
            else:
                unlisted.append(("%s: %s" % (k, v), None))
        viol = self.viol + unlisted
        self.evidence(viol, problem)
        if viol:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-%s-%d.json" % (self.id, self.tier, self.seed))
            json.dump({"property": self.id, "tier": self.tier, "seed": self.seed, "violations": [{"what": w, "command": c} for w, c in viol[:50]]}, open(path, "w"), indent=1)
            for w, _ in viol[:8]:
                print("  " + w[:1200].replace("\n", "\n    "))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            return 1
        if problem:
            print("NO VERDICT property=%s: %s" % (self.id, problem))
            return NO_VERDICT
        c = self.cov
        print("held property=%s tier=%s seed=%d: %d cases, %d distinct and non-trivial, %.0f s" % (self.id, self.tier, self.seed, c["evaluations"], c["distinct_nontrivial"], time.time() - self.t0))
        return 0

    def evidence(self, viol, problem):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": self.cov,
              "assumptions": ASSUME, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        if self.notes:
            ev["notes"] = self.notes
        if problem:
            ev["no_verdict"] = problem[:2000]
        if self.findings:
            ev["known_findings_seen"] = self.findings
        tmp = os.path.join(d, ".%s.tmp" % self.id)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.id + ".json"))


def brief(err, mark):
    ls = [l for l in err.split("\n")]
    k = next((i for i, l in enumerate(ls) if mark in l), 0)
    return " | ".join(l.strip() for l in ls[k:k + 14] if l.strip())[:900]


def known(pid):
    """signature -> what fails, from the committed file."""
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            r[m.group(2)] = m.group(3).strip()
    return r


def replay(path):
    j = json.load(open(path))
    rc = 0
    for v in j["violations"]:
        c = v["command"]
        print("== " + v["what"][:300])
        if not c:
            print("   (seen in the ordinary run: run.py %s %s with VERIF_SEED=%d)" % (j["property"], j["tier"], j["seed"]))
            continue
        if c[0] in ("macro-program", "miri"):
            print("   " + " ".join(c[1:]))
            continue
        kind = "asan" if "/asan/" in c[0] else "ship" if "/ship/" in c[0] else "release"
        build(kind)
        d = sh(c, 300)
        print(d.out[-3000:] + d.err[-1000:])
        rc = rc or d.rc
    return rc


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    if a[:1] == ["--setup"]:
        build("release")
        build("ship")
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return Check(a[0], tier, seed).run()


if __name__ == "__main__":
    sys.exit(main())
