"""Histories of changes, done for real while the watching process is stopped, and what has to be reported for them."""
import os
import signal
import time

import runner
from hypothesis import strategies as st
from runner import Violation, shown

NAMES = [b"a", b"b", b"c.txt", b"d e", b"qu\"ote", b"back\\slash", b"new\nline", b"tab\t", b"\x01\x1f\x7f", b"\xc3\xa9", b"\xe2\x82\xac",
         b"\xf0\x9f\x98\x80", b"\xff\xfe", b"\xc3", b"x\x80y", b"\xed\xa0\x80", b"L" * 255, b"\xc3\xa9" * 127, b"-", b"{}", b"null", b"\\u0041", b"%s%n", b" ", b".hid", b"a (deleted)",
         b"\xef\xbb\xbf", b"\xf4\x90\x80\x80", b"~", b"'", b"$(x)", b"\r", b"<script>", b"\xe2\x80\xa8", b"\xc2\x85", b"'\"\"\"\\\\\\\"", b"s", b"e", b"associated"]
UTF8 = [n for n in NAMES if n.decode("utf-8", "replace").encode() == n]


def any_name(utf8):
    ch = st.binary(min_size=1, max_size=12) if not utf8 else st.text(st.characters(exclude_categories=["Cs"]), min_size=1, max_size=8).map(lambda s: s.encode())
    odd = ch.map(lambda b: b.replace(b"/", b"_").replace(b"\0", b"0")).filter(lambda b: b not in (b".", b"..") and b".wsync" not in b and len(b) < 200)
    return st.one_of(st.sampled_from(UTF8 if utf8 else NAMES), odd)


KINDS = ["create", "create", "create_write", "write", "unlink", "rename", "rename", "rename_over", "rename_out", "rename_in", "link", "symlink",
         "mkdir", "mkdir", "rmdir", "rename_dir", "dir_out", "dir_in", "outside", "flush", "many"]


def ops(utf8=False, most=25):
    n = st.integers(0, 1 << 16)
    return st.tuples(st.lists(any_name(utf8), min_size=2, max_size=6, unique=True),
                     st.lists(st.tuples(st.sampled_from(KINDS), n, n, n), max_size=most))


class Exp:
    def __init__(self, et, pt, path, to=None, most=1):
        self.et, self.pt, self.path, self.to, self.most = et, pt, path, to, most

    def __repr__(self):
        return f"{self.et} {self.pt} {shown(self.path)}" + (f" -> {shown(self.to)}" if self.to else "")


class Tree:
    def __init__(self, base, names):
        self.base, self.names = base, names
        self.w, self.o = base + b"/w", base + b"/o"
        self.dirs = {self.w, self.o, self.o + b"/p"}
        self.files = {}
        for d in sorted(self.dirs):
            os.mkdir(d)
        for n in (b"f", b"p/g"):
            self.touch(self.o + b"/" + n)
        self.want = []
        self.n = 0
        self.log = []
        self.changes = 0
        self.kinds = {}

    def touch(self, p, data=b""):
        fd = os.open(p, os.O_CREAT | os.O_WRONLY | os.O_CLOEXEC, 0o600)
        if data:
            os.write(fd, data)
        os.close(fd)
        self.files[p] = True

    def within(self, p):
        return p.startswith(self.w + b"/")

    def pick(self, xs, x):
        xs = sorted(xs)
        return xs[x % len(xs)] if xs else None

    def wdirs(self):
        return [d for d in self.dirs if d == self.w or self.within(d)]

    def odirs(self):
        return [d for d in self.dirs if not (d == self.w or self.within(d))]

    def wfiles(self):
        return [f for f in self.files if self.within(f)]

    def ofiles(self):
        return [f for f in self.files if not self.within(f)]

    def new(self, d, x):
        n = self.names[x % len(self.names)]
        p = d + b"/" + n
        if p in self.dirs or p in self.files or len(p) > 3500:
            self.n += 1
            p = d + b"/n%d" % self.n
        return p

    def add(self, *a, **k):
        e = Exp(*a, **k)
        if e.et == "modify" and self.want and self.want[-1].et == "modify" and self.want[-1].path == e.path:
            self.want[-1].most += e.most
        else:
            self.want.append(e)

    def act(self, op):
        """Does it; True if everything has to be reported before another one."""
        k, x, y, z = op
        did = self._act(k, x, y, z)
        if did is not None:
            self.changes += 1
            self.kinds[k] = self.kinds.get(k, 0) + 1
            self.log.append(k)
        return bool(did) or k == "flush"

    def _act(self, k, x, y, z):
        if k in ("create", "create_write"):
            p = self.new(self.pick(self.wdirs(), x), y)
            self.touch(p, b"x" if k == "create_write" else b"")
            self.add("create", "file", p)
            if k == "create_write":
                self.add("modify", "file", p)
            return False
        if k == "many":
            d = self.pick(self.wdirs(), x)
            for i in range(1 + y % 120):
                self.n += 1
                p = d + b"/m%d-" % self.n + self.names[(z + i) % len(self.names)][:200]
                self.touch(p)
                self.add("create", "file", p)
            return False
        if k == "write":
            p = self.pick(self.wfiles(), x)
            if not p or os.path.islink(p):
                return None
            fd = os.open(p, os.O_WRONLY | os.O_APPEND | os.O_CLOEXEC)
            for _ in range(1 + y % 3):
                os.write(fd, b"y")
                self.add("modify", "file", p)
            os.close(fd)
            return False
        if k == "unlink":
            p = self.pick(self.wfiles(), x)
            if not p:
                return None
            os.unlink(p)
            del self.files[p]
            self.add("destroy", "file", p)
            return False
        if k in ("rename", "rename_over", "rename_out", "rename_in"):
            p = self.pick(self.ofiles() if k == "rename_in" else self.wfiles(), x)
            if not p:
                return None
            if k == "rename_over":
                q = self.pick([f for f in self.wfiles() if f != p], y)
                # (Links to one inode: nothing happens.)
                if not q or os.lstat(q).st_ino == os.lstat(p).st_ino:
                    return None
            else:
                q = self.new(self.pick(self.odirs() if k == "rename_out" else self.wdirs(), y), z)
            os.rename(p, q)
            del self.files[p]
            self.files[q] = True
            if k == "rename_in":
                self.add("rename", "file", q)
            elif k == "rename_out":
                self.add("rename", "file", p)
            else:
                self.add("rename", "file", p, q)
            return False
        if k in ("link", "symlink"):
            p = self.new(self.pick(self.wdirs(), x), y)
            t = self.pick([f for f in self.ofiles() if not os.path.islink(f)], z)
            if k == "link" and not t:
                return None
            if k == "link":
                # (Writing to it is seen by all of its names: one which we don't write to)
                os.link(self._frozen(), p)
            else:
                os.symlink(b"nothing", p)
            self.files[p] = True
            self.add("create", "file", p)
            return False
        if k == "mkdir":
            p = self.new(self.pick(self.wdirs(), x), y)
            if p.count(b"/") > 25:
                return None
            os.mkdir(p)
            self.dirs.add(p)
            self.add("create", "dir", p)
            return True
        if k == "rmdir":
            p = self.pick([d for d in self.wdirs() if d != self.w and not os.listdir(d)], x)
            if not p:
                return None
            os.rmdir(p)
            self.dirs.discard(p)
            self.add("destroy", "dir", p)
            return True
        if k in ("rename_dir", "dir_out", "dir_in"):
            p = self.pick([d for d in (self.odirs() if k == "dir_in" else self.wdirs()) if d not in (self.w, self.o)], x)
            if not p:
                return None
            to = [d for d in (self.odirs() if k == "dir_out" else self.wdirs()) if not (d == p or d.startswith(p + b"/"))]
            q = self.new(self.pick(to, y), z)
            if max([len(x) for x in [*self.dirs, *self.files] if x == p or x.startswith(p + b"/")]) - len(p) + len(q) > 3500:
                return None
            os.rename(p, q)
            self.dirs = {q + d[len(p):] if d == p or d.startswith(p + b"/") else d for d in self.dirs}
            self.files = {q + f[len(p):] if f.startswith(p + b"/") else f: True for f in self.files}
            if k == "dir_in":
                self.add("rename", "dir", q)
            elif k == "dir_out":
                self.add("rename", "dir", p)
            else:
                self.add("rename", "dir", p, q)
            return True
        if k == "outside":
            p = self.new(self.pick(self.odirs(), x), y)
            self.touch(p, b"x")
            return False
        return None

    def _frozen(self):
        p = self.base + b"/frozen"
        if not os.path.exists(p):
            fd = os.open(p, os.O_CREAT | os.O_WRONLY | os.O_CLOEXEC, 0o400)
            os.close(fd)
        return p


def stop(pid):
    os.kill(pid, signal.SIGSTOP)
    end = time.time() + 10
    while time.time() < end:
        try:
            ts = os.listdir(f"/proc/{pid}/task")
            if all(open(f"/proc/{pid}/task/{t}/stat").read().rsplit(")", 1)[1].split()[0] in "TtZX" for t in ts):
                return
        except OSError:
            pass
        time.sleep(0.0003)


def cont(pid):
    os.kill(pid, signal.SIGCONT)


class Got:
    """One event, as it was reported: strings are of the reporter's type"""

    def __init__(self, et, pt, path, time, assoc=None, **more):
        self.et, self.pt, self.path, self.time, self.assoc = et, pt, path, time, assoc
        self.more = more

    def __repr__(self):
        return f"{self.et} {self.pt} {shown(self.path)}" + (f" -> {shown(self.assoc)}" if self.assoc is not None else "") + f" at {self.time}"


def compare(want, got, norm, what):
    def bad(m):
        raise Violation(f"{m}\n  history: {what}\n  expected: " + "\n    ".join(map(repr, want[:40])) + "\n  reported: " + "\n    ".join(map(repr, got[:40])))

    i = 0
    for w in want:
        n = 0
        while i < len(got) and n < w.most:
            g = got[i]
            if (g.et, g.pt, g.path) != (w.et, w.pt, norm(w.path)) or g.assoc != (norm(w.to) if w.to else None):
                break
            i, n = i + 1, n + 1
        if n == 0:
            bad(f"expected {w!r}, and " + (f"got {got[i]!r}" if i < len(got) else "nothing came"))
    if i < len(got):
        bad(f"nothing like {got[i]!r} happened")


class Session:
    """A history, reported by `sut`, which has pid, norm(bytes), events() -> [Got] so far, ended() -> bool."""

    def __init__(self, tree, sut, sync_dir=None):
        self.t, self.s = tree, sut
        self.at = 0
        self.syncs = 0

    def _wait(self, f):
        end = time.time() + runner.patience()
        while not f():
            if time.time() > end:
                return False
            time.sleep(0.0005)
        return True

    def sync(self):
        """Waits until everything so far was reported, and gives it."""
        self.syncs += 1
        p = self.t.w + b"/.wsync-%d" % self.syncs
        os.close(os.open(p, os.O_CREAT | os.O_WRONLY | os.O_CLOEXEC, 0o600))
        mine = self.s.norm(p)
        k = [self.at]

        def seen():
            ev = self.s.events()
            while k[0] < len(ev):
                e = ev[k[0]]
                k[0] += 1
                if e.et == "create" and e.path == mine:
                    return True
            return self.s.ended()

        ok = self._wait(seen)
        os.unlink(p)
        ev = self.s.events()
        if not ok or not any(e.path == mine for e in ev[self.at:k[0]]):
            raise Violation(f"it stopped reporting ({'it ended' if self.s.ended() else 'no event for ' + shown(p)})\n  history: {self.t.log}\n  reported: {ev[self.at:][:20]}\n{self.s.errors()}")
        r = ev[self.at:k[0]]
        self.at = k[0]
        return [e for e in r if not self.is_sync(e)]

    def is_sync(self, e):
        x = ".wsync-" if isinstance(e.path, str) else b".wsync-"
        return x in e.path

    def start(self):
        """Waits until it's watching."""
        end = time.time() + runner.patience()
        while time.time() < end:
            self.syncs += 1
            p = self.t.w + b"/.wsync-%d" % self.syncs
            os.close(os.open(p, os.O_CREAT | os.O_WRONLY | os.O_CLOEXEC, 0o600))
            t0 = time.time()
            while time.time() - t0 < 0.1:
                if any(self.is_sync(e) for e in self.s.events()):
                    os.unlink(p)
                    self.sync()
                    return
                if self.s.ended():
                    raise Violation(f"it ended by itself: {self.s.events()}\n{self.s.errors()}")
                time.sleep(0.0005)
            os.unlink(p)
        raise Violation(f"it isn't reporting anything: {self.s.events()}\n{self.s.errors()}")

    def run(self, ops):
        t = self.t
        stop(self.s.pid)
        t.since = time.time_ns()
        for o in ops:
            if t.act(o):
                self.flush()
                stop(self.s.pid)
        self.flush()

    def flush(self):
        t = self.t
        cont(self.s.pid)
        got = self.sync()
        now = time.time_ns()
        compare(t.want, got, self.s.norm, t.log)
        last = 0
        for g in got:
            if not self.s.time_ok(g.time, t.since, now):
                raise Violation(f"{g!r}: its time isn't between {t.since} and {now}")
            if g.time < last - 1e6:
                raise Violation(f"{g!r}: its time is before the one before it ({last})")
            last = g.time
        t.want = []
        t.log.append("|")
        t.since = now
