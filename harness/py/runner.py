"""Runs properties over generated cases (Hypothesis), for run_check.py."""
import ast
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings


class Violation(Exception):
    pass


class Info:
    def __init__(self):
        self.nontrivial = False
        self.counts = {}
        self.describe = ""

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n


class Spec:
    def __init__(self, name, strategy, run, rule, hang=90, chunk=500):
        self.name, self.strategy, self.run, self.rule, self.hang, self.chunk = name, strategy, run, rule, hang, chunk


SHRINKING = False
_began = 0.0
_hang = 90.0


def patience():
    """How long to wait for what has to happen."""
    return 8.0 if SHRINKING else 20.0


def _watchdog():
    while True:
        time.sleep(0.3)
        if _began and time.time() - _began > _hang:
            print(f"HANG: a case took more than {_hang:.0f} s", flush=True)
            os._exit(97)


class Scratch:
    """A directory, which is removed with everything in it."""

    def __init__(self):
        top = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.path = tempfile.mkdtemp(prefix=f"wverif-{os.environ.get('WVERIF_RUN', '0')}-", dir=top)

    def __enter__(self):
        return os.fsencode(self.path)

    def __exit__(self, *_):
        shutil.rmtree(os.fsencode(self.path), ignore_errors=True)


def shown(b):
    return repr(b)[1:] if isinstance(b, bytes) else repr(b)


def _write(path, text):
    with open(path, "w", errors="backslashreplace") as f:
        f.write(text)


def run(spec, case, info):
    try:
        spec.run(case, info)
    except (BrokenPipeError, ConnectionError, EOFError) as e:
        raise Violation(f"it went away: {e!r} {traceback.format_exc()}")


def main(specs, cleanup=lambda: None):
    global SHRINKING, _began, _hang
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    spec = {s.name: s for s in specs}[a["--prop"]]
    _hang = spec.hang
    threading.Thread(target=_watchdog, daemon=True).start()

    def done(code):
        try:
            cleanup()
        except Exception:
            pass
        sys.stdout.flush()
        os._exit(code)

    if "--replay" in a:
        with open(a["--replay"]) as f:
            text = [x for x in f.read().splitlines() if x and not x.startswith("#") and not x.startswith("prop ")]
        info = Info()
        _began = time.time()
        try:
            run(spec, ast.literal_eval("\n".join(text)), info)
        except Violation as e:
            print(info.describe)
            print("FAILED:", str(e).encode("utf-8", "backslashreplace").decode())
            done(1)
        except Exception:
            print("the harness failed:", traceback.format_exc())
            done(0)
        print(info.describe)
        print("HELD")
        done(0)

    secs, shrink = float(a.get("--secs", 1e9)), float(a.get("--shrink", 40))
    cases, seed = int(a.get("--cases", 100)), int(a.get("--seed", 1))
    began = time.time()
    st = dict(evals=0, counts={}, hashes=set(), samples=[], failed=False, msg="", case=None, first=0.0, desc="")

    def body(case):
        global SHRINKING, _began
        now = time.time()
        if st["failed"] and now - st["first"] > shrink:
            return
        if not st["failed"] and (now - began > secs or st["evals"] >= cases):
            return
        text = repr(case)
        if "--inflight" in a:
            _write(a["--inflight"], f"prop {spec.name}\n{text}\n")
        info = Info()
        _began = time.time()
        try:
            run(spec, case, info)
        except Violation as e:
            if not st["failed"]:
                st["failed"], st["first"] = True, time.time()
                if "--fail" in a:
                    _write(a["--fail"] + ".first", f"prop {spec.name}\n# {str(e)!r}\n{text}\n")
            SHRINKING = True
            if st["case"] is None or len(text) <= len(st["case"]):
                st["case"], st["msg"], st["desc"] = text, str(e), info.describe
            raise
        finally:
            _began = 0.0
            if not st["failed"]:
                st["evals"] += 1
                for k, v in info.counts.items():
                    st["counts"][k] = st["counts"].get(k, 0) + v
                if info.nontrivial:
                    h = int.from_bytes(hashlib.sha1(text.encode()).digest()[:7], "big")
                    if h not in st["hashes"]:
                        st["hashes"].add(h)
                        n = len(st["hashes"])
                        if n <= 2 or (len(st["samples"]) < 6 and n % 50 == 0):
                            st["samples"].append(info.describe[:600])

    def finish():
        if "--fail" in a and st["failed"]:
            _write(a["--fail"], f"prop {spec.name}\n# {st['msg']!r}\n{st['case']}\n")
        if "--out" in a:
            _write(a["--out"], json.dumps(dict(
                prop=spec.name, evaluations=st["evals"], distinct_nontrivial=len(st["hashes"]), rule=spec.rule,
                wall_s=time.time() - began, failed=st["failed"], msg=st["msg"].encode("utf-8", "backslashreplace").decode(), describe=st["desc"],
                counts=st["counts"], hashes=sorted(st["hashes"]), samples=st["samples"])) + "\n")
        if st["failed"]:
            print("FAILED:", st["msg"].encode("utf-8", "backslashreplace").decode())

    n = 0
    while not st["failed"] and time.time() - began < secs and st["evals"] < cases:
        test = settings(max_examples=spec.chunk, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)(
            hypothesis.seed(seed * 100003 + n)(given(spec.strategy)(body)))
        n += 1
        try:
            test()
        except Violation:
            pass
        except BaseException as e:
            if not st["failed"]:
                traceback.print_exc()
                _write(a.get("--out", "/dev/null") + ".err", traceback.format_exc())
                done(3)
            if isinstance(e, KeyboardInterrupt):
                break
    finish()
    done(1 if st["failed"] else 0)
