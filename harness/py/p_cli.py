"""The program, run with all kinds of arguments, on all kinds of histories."""
import json
import os
import select
import signal
import subprocess
import sys
import threading
import time

import fsmodel
import runner
from hypothesis import strategies as st
from runner import Info, Scratch, Spec, Violation, shown

EXE = sys.argv.pop(1)

ETS = {"rename", "modify", "create", "destroy", "owner", "other"}
PTS = {"dir", "file", "hard_link", "sym_link", "watcher", "other"}
FIELDS = ["path_type", "path_name", "effect_type", "effect_time", "associated"]
HELP = None


def clean_env(**more):
    e = {k: v for k, v in os.environ.items() if not k.startswith("WVERIF_")}
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:handle_segv=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    e.update(more)
    return e


def parse(line):
    """One line of output: an object for one event."""
    def pairs(ps):
        ks = [k for k, _ in ps]
        if sorted(ks) != sorted(FIELDS):
            raise ValueError(f"fields: {ks}")
        return dict(ps)

    def bad_number(x):
        raise ValueError(f"number: {x}")

    def text(x):
        return x.encode("utf-8", "surrogateescape")

    def event(d, nested=False):
        if not isinstance(d, dict):
            raise ValueError(f"not an object: {d!r}")
        if d["path_type"] not in PTS or d["effect_type"] not in ETS or not isinstance(d["path_name"], str) or type(d["effect_time"]) is not int:
            raise ValueError(f"not an event: {d}")
        a = None
        if d["associated"] is not None:
            if nested:
                raise ValueError("an associated event of an associated event")
            a = event(d["associated"], True)
        return fsmodel.Got(d["effect_type"], d["path_type"], text(d["path_name"]), d["effect_time"], a.path if a else None, of=a)

    try:
        s = line.decode("utf-8", "surrogateescape")
        e = event(json.loads(s, object_pairs_hook=pairs, parse_float=bad_number, parse_constant=bad_number))
        of = e.more["of"]
        if of and (of.et != "rename" or of.pt != e.pt):
            raise ValueError(f"associated with {of!r}")
        return e
    except (ValueError, KeyError, RecursionError) as x:
        raise Violation(f"a line which isn't an event's object ({x}): {line!r}")


class Cli:
    norm = staticmethod(lambda b: b)

    def __init__(self, args, cwd=b"/", env=None, pass_fds=(), read=True):
        self.p = subprocess.Popen([EXE, *args], cwd=cwd, env=env or clean_env(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=pass_fds)
        self.pid = self.p.pid
        self.buf = bytearray()
        self.err = bytearray()
        self.seen = []
        self.parsed = 0
        self.eof = False
        self.first = threading.Event()
        self.go = threading.Event()
        if read:
            self.go.set()
        self.ts = [threading.Thread(target=self._read, args=(self.p.stdout, self.buf)), threading.Thread(target=self._read, args=(self.p.stderr, self.err))]
        for t in self.ts:
            t.daemon = True
            t.start()

    def _read(self, f, into):
        while True:
            if f is self.p.stdout:
                self.go.wait()
            d = os.read(f.fileno(), 1 << 16)
            if not d:
                break
            into += d
            if f is self.p.stdout and b"\n" in into:
                self.first.set()
        if f is self.p.stdout:
            self.eof = True
            self.first.set()

    def events(self):
        while True:
            k = self.buf.find(b"\n", self.parsed)
            if k < 0:
                return self.seen
            self.seen.append(parse(bytes(self.buf[self.parsed:k])))
            self.parsed = k + 1

    def ended(self):
        return self.eof and self.p.poll() is not None

    def errors(self):
        return self.err.decode(errors="replace")[-3000:]

    def time_ok(self, t, a, b):
        return a <= t <= b

    def wait(self, s=None):
        """Its exit status, once it's over."""
        try:
            self.p.wait(s or runner.patience())
        except subprocess.TimeoutExpired:
            raise Violation(f"it doesn't end: {self.events()[-5:]} {self.errors()}")
        for t in self.ts:
            t.join(5)
        return self.p.returncode

    def close(self):
        self.go.set()
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        for t in self.ts:
            t.join(5)
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            try:
                f.close()
            except OSError:
                pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


def messages(c, path, ok):
    """The live and die messages, around everything else."""
    ev = c.events()
    if c.parsed != len(c.buf):
        raise Violation(f"the last line isn't whole: {bytes(c.buf[c.parsed:])!r}")
    if len(ev) < 2:
        raise Violation(f"fewer than two lines: {bytes(c.buf)!r} {c.errors()}")
    k = b"s" if ok else b"e"
    last = ev[-1]
    if (last.path, last.et, last.pt, last.assoc) != (k + b"/self/die@" + path, "destroy", "watcher", None):
        raise Violation(f"the last line is {last!r}, rather than {k + b'/self/die@' + path!r}, after {[e.path for e in ev[-9:-1]]} {c.errors()}")
    first = ev[0]
    if first.path not in ((b"s/self/live@" + path,) if ok else (b"s/self/live@" + path, b"e/self/live@" + path)) or first.et != "create" or first.pt != "watcher":
        raise Violation(f"the first line is {first!r}")
    return ev


# ---- what it prints ----

ENDS = ["eof", "line", "bytes"]


def run_history(case, info):
    (names, ops), how, root_form, end, lazy = case
    with Scratch() as base:
        t = fsmodel.Tree(base, names)
        root = t.w
        arg, cwd = root, b"/"
        if root_form == "slash":
            arg = root + b"/"
        elif root_form == "relative":
            arg, cwd = b"w", base
        elif root_form == "none":
            arg, cwd = None, root
        elif root_form == "dots":
            arg, cwd = b"./o/../w", base
        # Some of it is there before
        pre = len(ops) * (how % 4) // 8
        for o in ops[:pre]:
            t.act(o)
        t.want = []
        t.log.append("-- watch")
        t.changes = 0
        with Cli([arg] if arg else [], cwd, read=not lazy) as c:
            try:
                c.go.set()
                s = fsmodel.Session(t, c)
                s.start()
                if lazy:
                    lazily(s, c, t, ops[pre:])
                else:
                    s.run(ops[pre:])
                if end == "eof":
                    c.p.stdin.close()
                else:
                    c.p.stdin.write(b"\n" if end == "line" else b"\x00q")
                    c.p.stdin.flush()
                rc = c.wait()
                n = len(c.events())
                given = os.path.join(cwd, arg) if arg else root
                ev = messages(c, given, True)
                rest = [e for e in ev[s.at:-1] if not s.is_sync(e)]
                if rest:
                    raise Violation(f"more than what happened: {rest[:10]}")
                if rc != 0:
                    raise Violation(f"exit status {rc}, though it worked: {c.errors()}")
                if c.err:
                    raise Violation(f"on standard error: {c.errors()}")
            except Violation as e:
                raise Violation(f"{e}\n  standard error: {c.errors()}")
        info.count("lines", n)
        info.count("changes", t.changes)
        for k, v in t.kinds.items():
            info.count("change: " + k, v)
        info.nontrivial = t.changes >= 3
        info.describe = f"watching {root_form}, ended by {end}{', read late' if lazy else ''}: {' '.join(t.log)[:300]}; names {[shown(n) for n in names][:3]}"


def lazily(s, c, t, ops):
    """Nobody reads its output until all is done."""
    for o in ops:
        c.go.clear()
        fsmodel.stop(c.pid)
        t.since = time.time_ns()
        t.act(o)
        fsmodel.cont(c.pid)
        if o[1] % 3 == 0:
            time.sleep(0.002)
        c.go.set()
        s.flush()


def run_failing(case, info):
    """It can't watch, or stops being able to."""
    kind, name, end, timed = case
    with Scratch() as base:
        p = base + b"/" + name
        fail = None
        if kind == "file":
            os.close(os.open(p, os.O_CREAT | os.O_WRONLY, 0o600))
        elif kind == "fifo":
            os.mkfifo(p)
        elif kind == "symlink to a file":
            os.symlink(b"/dev/null", p)
        else:
            os.mkdir(p)
            fail = kind if kind != "fine" else None
        env = clean_env(**({"WVERIF_FAIL": fail} if fail else {}))
        args = [p] + ([b"-ms", b"%d" % timed] if end == "time" else [])
        ok = kind == "fine"
        with Cli(args, env=env) as c:
            if fail == "epoll_wait":
                for i in range(400):
                    if any(b"self/die" in e.path for e in c.events()):
                        break
                    if c.ended():
                        break
                    os.close(os.open(p + b"/%d" % i, os.O_CREAT | os.O_WRONLY, 0o600))
                    time.sleep(0.001)
            elif not c.first.wait(runner.patience()):
                raise Violation(f"it prints nothing: {c.errors()}")
            if end == "eof":
                if not ok:
                    time.sleep(0.0)
                # (Once it's over, or in the middle of it)
                c.p.stdin.close()
            elif end == "line":
                c.p.stdin.write(b"x\n")
                c.p.stdin.flush()
            rc = c.wait()
            if fail == "epoll_wait" and end == "time" and rc == 0:
                info.describe = "over before it failed"
                return
            ev = messages(c, p, ok)
            if ok != (rc == 0) or rc < 0 or rc in (98,):
                raise Violation(f"exit status {rc} for {kind}: {ev} {c.errors()}")
            if not ok and fail and not any(e.pt == "watcher" and e.path.startswith(b"e/") for e in ev):
                raise Violation(f"no error: {ev}")
        info.count(kind)
        info.nontrivial = True
        info.describe = f"{kind}, {shown(name)}, ended by {end}"


# ---- arguments ----

UNITS = {}
for names, ns in ((("-nanoseconds", "-ns"), 1), (("-microseconds", "-us"), 10**3), (("-milliseconds", "-ms"), 10**6), (("-seconds", "-s"), 10**9),
                  (("-minutes", "-m"), 60 * 10**9), (("-hours", "-h"), 3600 * 10**9), (("-days", "-d"), 86400 * 10**9), (("-weeks", "-w"), 7 * 86400 * 10**9),
                  (("-months", "-mts"), 30 * 86400 * 10**9), (("-years", "-y"), 365 * 86400 * 10**9)):
    for n in names:
        UNITS[n] = ns
MOST = 2**63 - 1

def weighted(*ws):
    """Strategies, each as often as it says."""
    xs = [x for n, x in ws for _ in range(n)]
    return st.integers(0, len(xs) - 1).flatmap(lambda i: xs[i])


paths = weighted(
    (3, st.sampled_from([b".", b"w", b"./w", b"w/", b"../%s/w", b"w/sub", b"lnk", b"odd\xff\"\n", b"w/../w/sub", b" ", b"-x", b"s/self"])),
    (1, st.sampled_from([b"nothing", b"", b"w/nothing", b"f/x", b"loop", b"dangling", b"L" * 300, b"a/" * 2100, b"f", b"-", b"-help", b"h", b"--", b"-s", b"\xff" * 256])))
counts = st.one_of(st.integers(1, 100), st.integers(1, 2**64 + 5), st.sampled_from([2**31, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 9223372036, 9223372037, 292, 293, 106751, 106752]), st.integers(1, 10**60), st.just(10**400))
times = st.one_of(counts.map(lambda n: b"%d" % n), counts.map(lambda n: b"+%d" % n), counts.map(lambda n: b"00%d" % n))
senseless = st.one_of(st.sampled_from([b"", b"0", b"-1", b"nan", b"-nan", b"inf", b"-inf", b"infinity", b"0x10", b"1e3", b"1e400", b"-1e400", b"1.5", b"0.4", b".5", b"1e-400", b"abc", b"1abc", b" 5", b"5 ", b"nan(123)", b"0x1p80", b"--help", b"-h", b"NAN", b"1_000", b"\xff", b"4.9e-324", b"9223372036854775807.5", b"0.9999999999999999999"]), st.binary(max_size=12).map(lambda b: b.replace(b"\0", b"1")))
units = st.sampled_from([u.encode() for u in UNITS])
odd_units = st.one_of(st.sampled_from([b"-S", b"seconds", b"-", b"", b"--seconds", b"-sec", b"-mtss", b"-ms ", b"-n", b"-h=1", b"--help", b"s", b"-month"]), st.binary(max_size=8).map(lambda b: b.replace(b"\0", b"1")))

argvs = weighted(
    (8, st.tuples(paths, units, times)),
    (3, st.tuples(paths, units, counts.map(lambda n: b"%d" % (n % 1000 + 1)))),
    (2, st.tuples(paths)),
    (1, st.tuples()),
    (1, st.tuples(st.sampled_from([b"-h", b"--help"]))),
    (1, st.tuples(st.sampled_from([b"-h", b"--help"]), units, times)),
    (1, st.tuples(paths, units)),
    (4, st.tuples(paths, units, senseless)),
    (1, st.tuples(paths, odd_units, times)),
    (1, st.tuples(paths, units, times, senseless)),
    (2, st.lists(st.one_of(paths, units, times, senseless, odd_units, st.sampled_from([b"-h", b"--help"])), max_size=7).map(tuple)))


class World:
    """A place with some paths; removed at the end."""
    _at = None

    @classmethod
    def at(cls):
        if cls._at is None:
            cls._s = Scratch()
            b = cls._s.__enter__()
            for d in (b"w", b"w/sub", b"odd\xff\"\n", b" ", b"-x", b"s", b"s/self"):
                os.mkdir(b + b"/" + d)
            os.symlink(b"w", b + b"/lnk")
            os.symlink(b"loop", b + b"/loop")
            os.symlink(b"gone", b + b"/dangling")
            os.close(os.open(b + b"/f", os.O_CREAT | os.O_WRONLY, 0o600))
            cls._at = b
        return cls._at

    @classmethod
    def clean(cls):
        if cls._at:
            cls._s.__exit__()


def expectation(argv, cwd):
    """(what, more): help, no (help, as an error), wait ns, stdin, or any"""
    if argv and argv[0] in (b"-h", b"--help"):
        return "help", None
    if argv:
        try:
            there = os.path.exists(os.path.join(cwd, argv[0])) and argv[0] != b""
        except ValueError:
            there = False
        if not there:
            return "no", None
    if len(argv) <= 2:
        return "stdin", None
    u, n = argv[1].decode("latin-1"), argv[2].decode("latin-1")
    if u in UNITS and len(argv) == 3 and n.lstrip("+").isascii() and n.lstrip("+").isdigit() and n.count("+") <= 1 and int(n) > 0:
        # (More than a double can be isn't a number of anything.)
        return ("wait", min(int(n) * UNITS[u], MOST)) if int(n) < 10**308 else ("any", None)
    return "any", None


def run_args(case, info):
    argv, gone = case
    base = World.at()
    # (In a directory which isn't there any more, or here)
    cwd = base
    if gone:
        cwd = base + b"/gone"
        os.makedirs(cwd, exist_ok=True)
    argv = [a.replace(b"%s", os.path.basename(base)) if i == 0 else a for i, a in enumerate(argv)]
    what, ns = expectation(argv, cwd)
    if cwd != base:
        what, ns = ("help", None) if what == "help" else ("any", None)
    r7, w7 = os.pipe()
    r8, w8 = os.pipe()
    # (numbers which the program knows)
    try:
        env = clean_env(WVERIF_WAITS="1")

        def fix():
            os.dup2(w7, 107)
            os.dup2(r8, 108)
            os.dup2(107, 7)
            os.dup2(108, 8)
            for f in (107, 108):
                os.close(f)
            if cwd != base:
                os.rmdir(cwd)
        p = subprocess.Popen([EXE, *argv], cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, close_fds=False, preexec_fn=fix)
    finally:
        os.close(w7)
        os.close(r8)
    out, err = bytearray(), bytearray()
    waits = bytearray()
    fds = {p.stdout.fileno(): out, p.stderr.fileno(): err, r7: waits}
    open_fds = set(fds)
    fin = False
    reads_stdin = False
    end = time.time() + runner.patience()
    told = None
    try:
        while open_fds:
            left = end - time.time()
            if left <= 0:
                raise Violation(f"{argv}: it doesn't end; waits: {bytes(waits)!r}, output: {bytes(out)[-500:]!r} {bytes(err)[-500:]!r}")
            rs, _, _ = select.select(list(open_fds), [], [], 0.05)
            for f in rs:
                d = os.read(f, 1 << 16)
                if d:
                    fds[f] += d
                else:
                    open_fds.discard(f)
            # It's watching: now it may stop waiting (for the time, or for its input)
            if not fin and b"\n" in out and (what != "stdin" and b"\n" in waits or what in ("stdin", "any")):
                if what in ("wait",):
                    os.close(w8)
                    fin = True
                elif what == "stdin":
                    # Still there, though nothing was written to it
                    time.sleep(0.01)
                    if p.poll() is not None:
                        raise Violation(f"{argv}: it ended ({p.returncode}) before its input did: {bytes(out)!r}")
                    if waits:
                        raise Violation(f"{argv}: it waits for {bytes(waits)!r}, rather than its input")
                    p.stdin.close()
                    reads_stdin = fin = True
                else:
                    os.close(w8)
                    p.stdin.close()
                    fin = True
        p.wait(10)
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        os.close(r7)
        if not fin or what == "stdin":
            os.close(w8)
        for f in (p.stdin, p.stdout, p.stderr):
            f.close()
    rc, out, err = p.returncode, bytes(out), bytes(err)

    def bad(m):
        raise Violation(f"{[a[:60] for a in argv]}: {m}\n  exit status {rc}, waits {bytes(waits)!r}\n  output: {out[-1500:]!r}\n  errors: {err[-2500:].decode(errors='replace')}")

    if rc < 0 or rc == 98 or rc == 77 or b"Sanitizer" in err or b"runtime error" in err or b"terminate called" in err:
        bad("it crashed")
    if rc not in (0, 1):
        bad("an odd exit status")
    if what == "help":
        if rc != 0 or b"PATH" not in out or b"UNIT" not in out or b"TIME" not in out or err:
            bad("no help")
        check_help(out, bad)
    elif what == "no":
        if rc == 0 or out or not (b"PATH" in err and b"UNIT" in err):
            bad("no help on standard error for a path which doesn't exist")
        check_help(err, bad)
    else:
        is_help = b"PATH" in out + err and b"UNIT" in out + err and b"self/" not in out
        if cwd != base:
            pass
        elif is_help:
            if what in ("wait", "stdin"):
                bad("help, rather than watching")
        else:
            given = argv[0] if argv else b""
            want = os.path.join(base, given)
            lines = out.split(b"\n")
            if lines[-1] != b"" or len(lines) < 3:
                bad("no lines")
            ev = [parse(x) for x in lines[:-1]]
            good = os.path.isdir(want)
            at = ev[0].path.split(b"@", 1)[-1]
            if ev[0].path.split(b"@")[0] not in (b"s/self/live", b"e/self/live") or not (os.path.isabs(at) and os.path.realpath(at) == os.path.realpath(want)):
                bad(f"it watches {ev[0]!r}, rather than {want!r}")
            if what != "any":
                if good != (rc == 0):
                    bad("the wrong exit status")
                k = b"s" if good else b"e"
                if ev[-1].path != k + b"/self/die@" + at:
                    bad(f"the last line is {ev[-1]!r}")
                if ev[0].path != k + b"/self/live@" + at:
                    bad(f"the first line is {ev[0]!r}")
            if what == "wait":
                total = sum(int(x.split()[1]) for x in bytes(waits).split(b"\n") if x)
                exact = b"until" not in waits
                # (A double's precision; a deadline's imprecision)
                slack = ns // 2**52 + (0 if exact else 2 * 10**9)
                if not -slack <= total - ns <= slack:
                    # (What's more than the largest time may be a bit less than it.)
                    bad(f"it waits for {total} ns, rather than {ns}")
            if what == "stdin" and not reads_stdin:
                bad("it didn't wait for its input")
    info.count(what)
    if cwd != base:
        info.count("in a directory which is gone")
    if ns == MOST:
        info.count("saturated")
    info.nontrivial = what != "any" or rc == 0
    info.describe = f"{[shown(a)[:40] for a in argv]}: {what}{' ' + str(ns) if ns else ''}, exit status {rc}"


def check_help(text, bad):
    """Whatever it accepts is in it."""
    for u in UNITS:
        if u.encode() not in text:
            bad(f"the help doesn't say {u}")


def run_real(case, info):
    """Short times, really waited for."""
    n, unit = case
    ns = n * UNITS[unit]
    base = World.at()
    t0 = time.monotonic()
    with Cli([b"w", unit.encode(), b"%d" % n], cwd=base) as c:
        rc = c.wait(ns / 1e9 + runner.patience())
        took = time.monotonic() - t0
        if rc != 0:
            # (It may have been over before it began.)
            ev = c.events()
            if not (ev and ev[0].path.startswith(b"e/self/live@") and ns < 20 * 10**6):
                raise Violation(f"exit status {rc} after {n} {unit}: {ev} {c.errors()}")
        if took < ns / 1e9:
            raise Violation(f"it was over after {took} s, rather than {ns / 1e9} s")
    info.nontrivial = True
    info.count("real " + unit)
    info.describe = f"{n} {unit} took {took:.3f} s"


real_times = st.one_of(st.tuples(st.integers(1, 90), st.sampled_from(["-ms", "-milliseconds"])),
                       st.tuples(st.integers(1, 90_000), st.sampled_from(["-us", "-microseconds"])),
                       st.tuples(st.integers(1, 90_000_000), st.sampled_from(["-ns", "-nanoseconds"])))

runner.main([
    Spec("lines", st.tuples(fsmodel.ops(most=22), st.integers(0, 7), st.sampled_from(["plain", "plain", "slash", "relative", "none", "dots"]), st.sampled_from(ENDS), st.booleans()), run_history,
         "random histories (file names of any bytes; while the program is stopped) below a directory which the program watches, in several spellings: each line is an object with exactly the fields "
         "of the event which the model expects next, with a time between the change and its report, and the exit status is zero; non-trivial: three changes or more"),
    Spec("failing", st.tuples(st.sampled_from(["fine", "file", "fifo", "symlink to a file", "inotify_init", "inotify_add_watch", "epoll_wait"]), fsmodel.any_name(False), st.sampled_from(["eof", "line", "time"]), st.integers(1, 60)),
         run_failing, "what can't be watched, and failing system interfaces: lines for the errors, and a nonzero exit status; all non-trivial"),
    Spec("arguments", st.tuples(argvs, st.sampled_from([False] * 15 + [True])), run_args,
         "argument vectors: paths (or none), units and times, or senseless ones, with waits written down rather than waited for, against a table of units; "
         "non-trivial: its result is determined by its documentation, or it watched", hang=60),
    Spec("times", real_times, run_real, "short times, really waited for: it isn't over before; all non-trivial", hang=60),
], World.clean)
