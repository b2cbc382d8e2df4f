#!/usr/bin/env python3
"""Runs the check of one property: run_check.py <ID>

Builds what it needs from /repo's working tree, runs generators on all cores for
a while, replays what failed, and writes evidence/<ID>.json. Exits 0 if the
property held on everything explored, 1 (after a VIOLATION line) if it didn't.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as B  # noqa: E402
from checks import CHECKS  # noqa: E402

T0 = time.time()


def note(*a):
    print(*a, flush=True)


class Worker:
    def __init__(self, argv, prop, seed, dir, idx, secs, shrink, label, cases, env):
        self.argv, self.prop, self.seed, self.idx, self.label = argv, prop, seed, idx, label
        self.out = f"{dir}/{idx}.json"
        self.fail = f"{dir}/{idx}.fail"
        self.inflight = f"{dir}/{idx}.inflight"
        self.log = f"{dir}/{idx}.log"
        self.env = env
        self.limit = time.time() + secs + shrink + 150
        cmd = [*argv, "--prop", prop, "--seed", str(seed), "--secs", str(secs), "--cases", str(cases),
               "--shrink", str(shrink), "--out", self.out, "--fail", self.fail, "--inflight", self.inflight]
        self.p = subprocess.Popen(cmd, stdout=open(self.log, "w"), stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL, start_new_session=True, cwd="/", env=env)

    def wait(self):
        try:
            self.p.wait(max(1, self.limit - time.time()))
        except subprocess.TimeoutExpired:
            pass
        kill(self.p)
        self.rc = self.p.returncode

    def tail(self, n=4000):
        try:
            with open(self.log, errors="replace") as f:
                return f.read()[-n:]
        except OSError:
            return ""


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def replay(argv, prop, path, env, limit=100):
    """(failed, what)"""
    with tempfile.TemporaryFile("w+", errors="replace") as out:
        p = subprocess.Popen([*argv, "--prop", prop, "--replay", path], stdout=out, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True, cwd="/", env=env)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            kill(p)
            return True, "stuck"
        kill(p)
        out.seek(0)
        text = out.read()
    return p.returncode != 0, f"exit {p.returncode}\n{text[-6000:]}"


def confirm(argv, prop, path, env, need, most, deadline):
    """Replays until it failed `need` times, at most `most` times."""
    seen, what = 0, ""
    for i in range(most):
        bad, w = replay(argv, prop, path, env)
        if bad:
            seen, what = seen + 1, w
        if seen >= need:
            return True, what
        if time.time() > deadline or seen + (most - i - 1) < need:
            break
    return False, what


def read_case(path):
    with open(path, errors="replace") as f:
        return f.read().splitlines()


def ddmin(argv, prop, path, env, deadline):
    """Fewer operations for a case which crashes or hangs the process."""
    lines = read_case(path)
    head = [x for x in lines if not x.startswith("op ")]
    ops = [x for x in lines if x.startswith("op ")]
    tmp = path + ".try"

    def bad(o):
        with open(tmp, "w") as f:
            f.write("\n".join(head + o) + "\n")
        return replay(argv, prop, tmp, env)[0]

    n = 2
    while len(ops) >= 2 and time.time() < deadline:
        size = max(1, len(ops) // n)
        for i in range(0, len(ops), size):
            if time.time() > deadline:
                break
            o = ops[:i] + ops[i + size:]
            if bad(o):
                ops, n = o, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(n * 2, len(ops))
    with open(path, "w") as f:
        f.write("\n".join(head + ops) + "\n")
    if os.path.exists(tmp):
        os.remove(tmp)


def known(pid):
    r = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line.strip())
                if m and m[1] == pid:
                    r.append((re.compile(m[2], re.S), m[3]))
    except OSError:
        pass
    return r


def main():
    pid = sys.argv[1]
    c = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = c.get(tier, 30 if tier == "quick" else 300)
    shrink = c.get("shrink", 40)
    hard = T0 + (700 if tier == "quick" else 3300)

    try:
        argvs = c["build"]()
    except B.BuildError as e:
        note("the check can't be built:", e)
        return 2

    scratch = tempfile.mkdtemp(prefix="wverif-run-")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    env = dict(os.environ, **c.get("env", {}))
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=98:handle_segv=1")
    env.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:exitcode=98")
    env.setdefault("TSAN_OPTIONS", "exitcode=96:second_deadlock_stack=1:halt_on_error=1")
    env["VERIF_TIER"] = tier
    env["WVERIF_RUN"] = str(os.getpid())
    jobs = c["jobs"]
    ws, violation, unconfirmed = [], None, []
    try:
        n = 0
        for rep in range(c.get("rounds", 1)):
            for j in jobs:
                flavor, prop = j["bin"], j["prop"]
                for _ in range(j.get("workers", 1)):
                    s = (seed * 1000003 + n * 7919 + 17) % (1 << 31) or 1
                    ws.append(Worker(argvs[flavor], prop, s, scratch, n, j.get("secs", secs), shrink, flavor,
                                     j.get("cases", 10**9), env))
                    n += 1
        for w in ws:
            w.wait()

        stats, evals, hashes, counts, samples, rules = [], 0, set(), {}, [], []
        for w in ws:
            d = None
            if os.path.exists(w.out):
                try:
                    with open(w.out, errors="replace") as f:
                        d = json.load(f)
                except ValueError:
                    pass
            if d:
                evals += d["evaluations"]
                hashes |= {(w.prop, h) for h in d["hashes"]}
                for k, v in d["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                if d["rule"] not in rules:
                    rules.append(d["rule"])
                samples += [f"({w.label} {w.prop}) {s}" for s in d["samples"][:2]]
            stats.append(d)

        kn = known(pid)
        for w, d in zip(ws, stats):
            if violation:
                break
            ok = w.rc == 0 and d and not d["failed"]
            if ok:
                continue
            crashed = not (w.rc == 1 and d)
            cands = []
            if crashed:
                if not os.path.exists(w.inflight):
                    note(f"a worker ended with {w.rc} and no case: {w.tail()}")
                    if c.get("crash_needs_case", True):
                        unconfirmed.append(f"worker ended with {w.rc}: {w.tail(600)}")
                        continue
                cands = [w.inflight]
            else:
                cands = [p for p in (w.fail, w.fail + ".first") if os.path.exists(p)]
            msg = (d or {}).get("msg") or w.tail()
            listed = [t for rx, t in kn if rx.search(msg)]
            if listed:
                continue
            for path in cands:
                trust = c.get("trust_sanitizer") and crashed and w.rc in (96, 98)
                need, most = c.get("confirm", (2, 6))
                yes, what = (True, w.tail()) if trust else confirm(argvs[w.label], w.prop, path, env, need, most, hard)
                if yes:
                    if crashed and not trust:
                        ddmin(argvs[w.label], w.prop, path, env, min(hard, time.time() + 60))
                    keep = os.path.join(HERE, "replays", f"{pid}-{w.label}-{w.prop}-{w.seed}.case")
                    shutil.copy(path, keep)
                    with open(keep, "a") as f:
                        f.write(f"# replay: {' '.join(os.path.relpath(x, HERE) if x.startswith(HERE) else x for x in argvs[w.label])} --prop {w.prop} --replay <this>\n")
                    violation = (keep, what or msg)
                    break
            else:
                unconfirmed.append(f"{w.label} {w.prop} seed {w.seed}: {msg[:1500]}")

        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": c["level"],
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": len(hashes),
                "rule": "; ".join(rules) or c.get("rule", ""),
                "samples": samples[:8] or ["none"],
                "classes": dict(sorted(counts.items())),
                "workers": [f"{w.label} {w.prop} seed={w.seed}" for w in ws],
                "unconfirmed": unconfirmed,
            },
            "assumptions": c.get("assumptions", []),
            "wall_s": round(time.time() - T0, 2),
            "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")

        note(f"{pid}: {evals} cases, {len(hashes)} distinct and non-trivial, in {time.time() - T0:.0f} s")
        for u in unconfirmed:
            note("unconfirmed (didn't fail again):", u)
        if violation:
            note(violation[1][-5000:])
            note(f"VIOLATION property={pid} replay={violation[0]}")
            return 1
        for _, t in kn:
            note(f"KNOWN-FINDING: property={pid} {t}")
        if not hashes:
            note("nothing was checked:", *[w.tail(1500) for w in ws[:2]])
            return 2
        return 0
    finally:
        for w in ws:
            if w.p.poll() is None:
                kill(w.p)
        shutil.rmtree(scratch, ignore_errors=True)
        clean()


def clean():
    """Scratch directories of workers which were ended."""
    for top in ("/dev/shm", "/tmp"):
        try:
            names = os.listdir(top)
        except OSError:
            continue
        for n in names:
            p = os.path.join(top, n)
            if re.fullmatch(rf"wverif-{os.getpid()}-[A-Za-z0-9_]{{6,8}}", n) and not os.path.islink(p):
                subprocess.run(["rm", "-rf", "--", p], check=False)


if __name__ == "__main__":
    sys.exit(main())
