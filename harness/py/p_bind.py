"""The packages for other languages: whatever the C interface delivers has to arrive."""
import json
import os
import random
import subprocess
import sys
import threading
import time

import fsmodel
import runner
from hypothesis import strategies as st
from runner import Scratch, Spec, Violation, shown

LANG, FAKE, REAL = sys.argv[1:4]
k = sys.argv.index("--prop")
SUT = sys.argv[4:k]
del sys.argv[1:k]

ETS = ["rename", "modify", "create", "destroy", "owner", "other"]
PTS = ["dir", "file", "hard_link", "sym_link", "watcher", "other"]


def camel(s):
    a, *b = s.split("_")
    return a + "".join(x.title() for x in b)


def norm(b):
    return os.fsdecode(b) if LANG == "py" else b.decode("utf-8", "replace")


class Helper:
    """A process which uses the package."""

    def __init__(self, fake):
        self.fake = fake
        env = {k: v for k, v in os.environ.items() if not k.startswith("WVERIF_")}
        d = FAKE if fake else REAL
        env.update(LD_LIBRARY_PATH=d, PYTHONDONTWRITEBYTECODE="1", MALLOC_PERTURB_="165", PYTHONIOENCODING="utf-8:surrogateescape", RUST_BACKTRACE="1", NODE_NO_WARNINGS="1")
        fds = ()
        if fake:
            r, self.tell = os.pipe()
            self.log, w = os.pipe()
            env.update(WVERIF_FAKE_IN=str(r), WVERIF_FAKE_OUT=str(w))
            fds = (r, w)
        argv = [*SUT, f"{d}/libwatcher-c.so"] if LANG == "py" else SUT
        self.p = subprocess.Popen(argv, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=fds, cwd="/")
        self.pid = self.p.pid
        for f in fds:
            os.close(f)
        self.m = threading.Condition()
        self.events = {}
        self.replies = []
        self.logged = []
        self.err = bytearray()
        self.gone = False
        self.syncs = 0
        for f in [self._out, self._err] + ([self._log] if fake else []):
            threading.Thread(target=f, daemon=True).start()

    def _lines(self, fd, each):
        buf = b""
        while True:
            d = os.read(fd, 1 << 18)
            if not d:
                return
            *ls, buf = (buf + d).split(b"\n")
            with self.m:
                for x in ls:
                    each(x)
                self.m.notify_all()

    def _out(self):
        def each(x):
            o = json.loads(x)
            if "e" in o:
                self.events.setdefault(o["e"], []).append(o)
            else:
                self.replies.append(o)
        self._lines(self.p.stdout.fileno(), each)
        with self.m:
            self.gone = True
            self.m.notify_all()

    def _err(self):
        while True:
            d = os.read(self.p.stderr.fileno(), 1 << 16)
            if not d:
                return
            self.err += d
            if len(self.err) > 100_000:
                del self.err[:50_000]

    def _log(self):
        try:
            self._lines(self.log, lambda x: self.logged.append(x.decode()))
        except OSError:
            pass

    def until(self, f, what, s=None):
        end = time.time() + (s or runner.patience())
        with self.m:
            while True:
                r = f()
                if r:
                    return r
                if self.gone:
                    raise Violation(f"it crashed, or ended by itself, waiting for {what}: exit status {self.p.wait()} {self.errors()}")
                if time.time() > end:
                    raise Violation(f"it never came: {what} {self.errors()}")
                self.m.wait(0.2)

    def errors(self):
        time.sleep(0.05)
        return "\n" + self.err.decode(errors="replace")[-2500:]

    def ask(self, **o):
        with self.m:
            self.replies.clear()
        self.p.stdin.write((json.dumps(o) + "\n").encode())
        self.p.stdin.flush()

    def reply(self, s=None):
        r = self.until(lambda: list(self.replies), "a reply", s)[0]
        if r["r"] == "uncaught":
            raise Violation(f"an exception: {r['error']}")
        return r

    def do(self, **o):
        self.ask(**o)
        return self.reply()

    def say(self, line):
        b = (line + "\n").encode()
        while b:
            b = b[os.write(self.tell, b):]

    def sync(self):
        self.syncs += 1
        n = f"sync {self.syncs}"
        self.say(n)
        self.until(lambda: n in self.logged, "the stand-in's answer")

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, ):
                f.close()
            if self.fake:
                os.close(self.tell)
        except OSError:
            pass


HELPERS = {}


def helper(fake):
    h = HELPERS.get(fake)
    if h is None or h.gone or runner.SHRINKING:
        if h:
            h.kill()
        h = HELPERS[fake] = Helper(fake)
    with h.m:
        h.events.clear()
        h.logged.clear()
    return h


def kill_all():
    for h in HELPERS.values():
        h.kill()
    HELPERS.clear()


def xhex(b):
    return "x" + b.hex()


class Ev:
    def __init__(self, t, et, pt, path, assoc):
        self.t, self.et, self.pt, self.path, self.assoc = t, et, pt, path, assoc

    def __repr__(self):
        return f"{ETS[self.et]} {PTS[self.pt]} {shown(self.path)} {shown(self.assoc) if self.assoc is not None else '-'} at {self.t}"

    def line(self, what, token, n=""):
        return f"{what} {token} {n} {self.t} {self.et} {self.pt} {xhex(self.path)} {xhex(self.assoc) if self.assoc is not None else '-'}"


def agree(e, g):
    """What's wrong with it, if anything."""
    path, assoc = norm(e.path), norm(e.assoc) if e.assoc is not None else None
    et, pt = ETS[e.et], PTS[e.pt]
    if g["path"] != path:
        return "the path"
    if g["assoc"] != assoc:
        return "the associated path"
    if LANG == "py":
        if (g["et"], g["pt"]) != (et.upper(), pt.upper()) or g["values"] != [e.et, e.pt]:
            return "the types"
        if g["t"] != e.t or not g["ints"]:
            return "the time"
        if not g["text"]:
            return "str() or repr()"
        if g["json"] is not None:
            try:
                o = json.loads(g["json"], object_pairs_hook=lambda ps: dict(ps) if len(dict(ps)) == len(ps) else None)
            except ValueError as x:
                return f"to_json ({x})"
            if o != dict(effect_time=e.t, path_name=path, associated_path_name=assoc, effect_type=et, path_type=pt) or type(o["effect_time"]) is not int:
                return f"to_json ({o})"
    elif LANG == "node":
        if (g["et"], g["pt"]) != (camel(et), camel(pt)):
            return "the types"
        if float(g["t"]) != float(e.t):
            return "the time"
        if g["keys"] != ["associatedPathName", "effectTime", "effectType", "pathName", "pathType"]:
            return "the keys"
    else:
        if (g["et"], g["pt"]) != (et, pt) or (g["de"], g["dp"]) != (et.title().replace("_", ""), pt.title().replace("_", "")):
            return "the types"
        if g["t"] != e.t:
            return "the time"
        o = json.loads(g["json"])
        if not g["ok"] or o != dict(effect_time=e.t, path_name=path, associated_path_name=assoc, effect_type=et, path_type=pt):
            return f"its JSON ({g['json']})"
    return None


class W:
    pass


def run_scripted(case, info):
    watchers, actions, order = case
    h = helper(True)
    try:
        _scripted(h, watchers, actions, order, info)
    except Violation as e:
        h.kill()
        HELPERS.pop(True, None)
        raise Violation(f"{e}\n  {info.describe}")
    except BaseException:
        h.kill()
        HELPERS.pop(True, None)
        raise


def _scripted(h, watchers, actions, order, info):
    ws = []
    used = set()
    nev = 0
    notes = []
    info.describe = ""
    checked = {}

    def check(w, whole=False):
        """What arrived, against what was sent."""
        with h.m:
            got = list(h.events.get(w.id, ()))
        at = checked.get(w.id, 0)
        for i in range(at, len(got)):
            if i >= len(w.sent):
                raise Violation(f"watcher {w.id}: an event which wasn't sent to it: {got[i]}")
            x = agree(w.sent[i], got[i])
            if x:
                raise Violation(f"watcher {w.id}, event {i}: {x}: {w.sent[i]!r} arrived as {got[i]}")
        checked[w.id] = len(got)
        if whole and len(got) != len(w.sent):
            raise Violation(f"watcher {w.id}: {len(got)} of {len(w.sent)} events arrived; the first which didn't is {w.sent[len(got)]!r} {h.errors()}")

    def arrived(w):
        """Waits for all of them"""
        if LANG == "rs":
            if w.drained < len(w.sent):
                r = drain(w, len(w.sent) - w.drained, int(1000 * runner.patience()))
                if r["got"] == 0 or w.drained < len(w.sent):
                    check(w)
                    raise Violation(f"watcher {w.id}: only {w.drained} of {len(w.sent)} items came; {r}")
        end = time.time() + runner.patience()
        with h.m:
            while len(h.events.get(w.id, ())) < len(w.sent) and not h.gone and time.time() < end:
                h.m.wait(0.2)
            gone = h.gone
        if gone:
            raise Violation(f"it crashed, or ended by itself: exit status {h.p.wait()} {h.errors()}")
        check(w, True)

    def drain(w, n, ms):
        h.ask(op="drain", id=w.id, n=n, ms=ms)
        r = h.reply(ms / 1000 + runner.patience())
        w.drained += r["got"]
        if r["ended"]:
            raise Violation(f"watcher {w.id}: its stream ended")
        if not r["woken"]:
            raise Violation(f"watcher {w.id}: nobody was woken for an item")
        return r

    def end(w):
        if w.ended:
            return
        w.ended = True
        if w.lost:
            arrived(w)
            return
        c = w.c
        if w.c["settle"]:
            arrived(w)
        h.sync()
        for e in c["last"]:
            w.sent.append(Ev(*e))
            h.say(w.sent[-1].line("last", w.token))
        h.sync()
        how = c["how"]
        if LANG == "py":
            how = ["close", "exit", "error", "del"][how % 4]
            r = h.do(op="close", id=w.id, how=how)
        elif LANG == "node":
            how = "close"
            r = h.do(op="close", id=w.id)
        else:
            how = ["close", "close", "drop"][how % 3]
            r = h.do(op=how, id=w.id)
        notes.append(f"{how} {w.id}")
        info.count("ended by " + how)
        if r.get("error"):
            raise Violation(f"watcher {w.id}: {how}: {r}")
        if "ok" in r and r["ok"] != c["close_ok"]:
            raise Violation(f"watcher {w.id}: its close gave {c['close_ok']}, and this one {r['ok']}")
        if LANG == "rs" and how == "drop":
            with h.m:
                n = len(h.events.get(w.id, ()))
            del w.sent[n:]
        else:
            arrived(w)
        for _ in range(c["again"]):
            r = h.do(op="again", id=w.id)
            if r.get("error") or r.get("ok"):
                raise Violation(f"watcher {w.id}: closed again: {r}")
        agains = c["again"] if LANG == "rs" and how == "close" else 0
        if LANG == "rs" and how == "close":
            r = drain(w, 1, 1)
            if r["got"]:
                raise Violation(f"watcher {w.id}: an item after it was closed")
            h.do(op="drop", id=w.id)
            agains += 1
        mine = f"close {w.token} "
        h.until(lambda: mine + "once" in h.logged, f"the close of watcher {w.id} (by {how})")
        h.sync()
        with h.m:
            closes = [x for x in h.logged if x.startswith(mine)]
        if closes != [mine + "once"] + [mine + "again"] * agains:
            raise Violation(f"watcher {w.id}: it was closed like this: {closes}")
        check(w, True)

    for i, c in enumerate(watchers):
        w = W()
        w.c, w.id, w.sent, w.drained, w.ended, w.lost = c, i + 1, [], 0, False, False
        w.token = c["token"]
        while w.token in used or not w.token:
            w.token = (w.token + 1) % 2**64
        used.add(w.token)
        early = [Ev(*e) for e in c["early"]] if c["open_ok"] else []
        h.say(f"plan {w.token} {int(c['open_ok'])} {int(c['close_ok'])} {len(early)}")
        for e in early:
            w.sent.append(e)
            h.say(e.line("ev", w.token))
        path = c["path"]
        r = h.do(op="open", id=w.id, path=path, slow=c["slow"], raises=c["raises"], json=True, enter=c["settle"])
        told = f"open {w.token} {xhex(path.encode('utf-8', 'surrogateescape'))}"
        opens = []

        def all_opens():
            opens[:] = [x for x in h.logged if x.startswith(("open", "unplanned"))]
            return len(opens) > i
        h.until(all_opens, "its open")
        if opens[-1] != told:
            raise Violation(f"watcher {w.id}: opened as {opens[-1]} rather than {told}")
        if len(opens) != i + 1:
            raise Violation(f"opened {opens}")
        if c["open_ok"] != (not r.get("error")):
            raise Violation(f"watcher {w.id}: its open {'worked' if c['open_ok'] else 'failed'}, and this gave {r}")
        notes.append(f"open {w.id}{'' if c['open_ok'] else ' (fails)'}{' early ' + str(len(early)) if early else ''}{' slow' if c['slow'] else ''}{' raises' if c['raises'] else ''}")
        if c["open_ok"]:
            ws.append(w)
        else:
            info.count("failed open")
    for a in actions:
        live = [w for w in ws if not w.ended]
        if not live:
            break
        w = live[a[1] % len(live)]
        what = a[0]
        notes.append(f"{what} {w.id}" + (f" x{a[3]}" if what == "rep" else ""))
        info.count(what)
        if what == "ev":
            w.sent.append(Ev(*a[2]))
            h.say(w.sent[-1].line("ev", w.token))
        elif what == "rep":
            e, n = Ev(*a[2]), a[3]
            if e.t > 2**62:
                e.t -= 2**20
            h.say(e.line("rep", w.token, n))
            for k in range(n):
                x = b"%d" % k
                w.sent.append(Ev(e.t + k, e.et, e.pt, e.path + x, e.assoc + x if e.assoc is not None else None))
        elif what == "pause":
            h.say(f"pause {w.token} {a[3]}")
        elif what == "busy":
            h.do(op="busy", us=a[3] * 10)
        elif what == "arrived":
            h.sync()
            arrived(w)
        elif what == "drain":
            if LANG == "rs":
                drain(w, a[3], a[3] % 4)
            check(w)
        elif what == "lose":
            if LANG == "node" and not w.lost:
                w.lost = True
                h.do(op="lose", id=w.id)
        elif what == "end":
            end(w)
    for k in order:
        if ws:
            end(ws[k % len(ws)])
    for w in ws:
        end(w)
    h.do(op="busy", us=1)
    for w in ws:
        check(w, True)
        nev += len(w.sent)
    h.do(op="forget")
    h.sync()
    with h.m:
        others = [x for x in h.logged if x.startswith("close") and int(x.split()[1]) not in [w.token for w in ws]]
    if others:
        raise Violation(f"what wasn't opened was closed: {others}")
    info.count("events", nev)
    info.nontrivial = nev >= 5
    info.describe = f"{'; '.join(notes)[:500]}: {nev} events, such as {[repr(w.sent[0])[:150] for w in ws if w.sent][:2]}"


def weighted(*ws):
    xs = [x for n, x in ws for _ in range(n)]
    return st.integers(0, len(xs) - 1).flatmap(lambda i: xs[i])


_text = st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), max_size=20)
_odd = st.binary(max_size=20).map(lambda b: b.replace(b"\0", b"\x01"))
_names = st.lists(fsmodel.any_name(LANG == "node"), min_size=1, max_size=5).map(lambda ns: b"/" + b"/".join(ns))
if LANG == "node":
    byte_paths = weighted((2, _text.map(str.encode)), (4, _names), (1, st.integers(1, 9000).map(lambda n: b"/p" * n)), (1, st.sampled_from([b"s/self/live@/x", b"", b"\xef\xbf\xbd", b"\xef\xbb\xbf"])))
else:
    byte_paths = weighted((2, _text.map(str.encode)), (2, _odd), (4, _names), (1, st.integers(1, 9000).map(lambda n: b"/p\xff" * n)), (1, st.sampled_from([b"s/self/live@/x", b"", b"\xef\xbf\xbd", b"\xef\xbb\xbf"])))
event_times = weighted((3, st.integers(1_600_000_000 * 10**9, 2_000_000_000 * 10**9)), (1, st.integers(-2**63, 2**63 - 1)),
                       (1, st.sampled_from([0, 1, -1, 2**31, 2**32, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63, 10**18])))
events = st.tuples(event_times, st.integers(0, 5), st.integers(0, 5), byte_paths, weighted((2, st.none()), (1, byte_paths.filter(bool))))
few = weighted((5, st.just([])), (2, st.lists(events, min_size=1, max_size=5)))
open_paths = weighted((3, st.sampled_from(["/x", ".", "", "a b", "/é€😀"])), (2, _text), (1, st.integers(1, 4000).map(lambda n: "/" + "x" * n)),
                      (1, _odd.map(os.fsdecode) if LANG == "py" else _text))
watchers = st.lists(st.fixed_dictionaries(dict(
    token=weighted((1, st.integers(1, 2**64 - 1)), (1, st.sampled_from([1, 2**31, 2**32, 2**63, 2**64 - 1, 0x7fffdeadbeef0]))),
    open_ok=st.sampled_from([True] * 9 + [False]), close_ok=st.sampled_from([True] * 5 + [False]), early=few, last=few, path=open_paths,
    slow=st.sampled_from([0] * 4 + [50, 300]), raises=st.sampled_from([0] * 3 + [1, 2, 7]), how=st.integers(0, 11), again=st.sampled_from([0, 0, 1, 2]), settle=st.booleans())), min_size=1, max_size=3)
_any_event = st.tuples(st.integers(0, 2), events, st.one_of(st.integers(1, 30), st.integers(1, 700)))
_action = st.tuples(st.sampled_from(["ev"] * 12 + ["rep"] * 4 + ["pause", "busy", "busy", "arrived", "drain", "drain", "drain", "end"] + (["lose"] if LANG == "node" else [])), _any_event).map(lambda x: (x[0], *x[1]))
actions = weighted((1, st.lists(_action, max_size=40)), (2, st.lists(_action, min_size=8, max_size=40)))


# ---- with the library ----

class Sut:
    norm = staticmethod(norm)

    def __init__(self, h, wid):
        self.h, self.id, self.pid = h, wid, h.pid
        self.parsed = 0
        self.seen = []
        self.asked = False
        self.die = None

    def events(self):
        h = self.h
        if LANG == "rs":
            with h.m:
                if self.asked and h.replies:
                    r = h.replies[0]
                    if not r["woken"]:
                        raise Violation("nobody was woken for an item")
                    self.asked = False
            if not self.asked:
                self.asked = True
                h.ask(op="drain", id=self.id, n=1 << 40, ms=3)
        with h.m:
            got = h.events.get(self.id, [])[self.parsed:]
        self.parsed += len(got)
        for g in got:
            et, pt = g["et"], g["pt"]
            if LANG == "py":
                et, pt = et.lower(), pt.lower()
            pt = {"hardLink": "hard_link", "symLink": "sym_link"}.get(pt, pt)
            self.seen.append(fsmodel.Got(et, pt, g["path"], g["t"], g["assoc"], json=g.get("json")))
            if g.get("json"):
                o = json.loads(g["json"])
                if o != dict(effect_time=g["t"], path_name=g["path"], associated_path_name=g["assoc"], effect_type=et, path_type=pt):
                    raise Violation(f"its JSON {o} isn't {g}")
        return self.seen

    def settle(self):
        """(Nothing else is under way.)"""
        if self.asked:
            self.h.reply()
            self.asked = False

    def ended(self):
        return self.h.gone

    def errors(self):
        return self.h.errors()

    def time_ok(self, t, a, b):
        return a - 512 <= t <= b + 512 if LANG == "node" else a <= t <= b


def run_real(case, info):
    (names, ops), root, how, raises, slow, more = case
    h = helper(False)
    try:
        _real(h, names, ops, root, how, raises, slow, more, info)
    except Violation as e:
        h.kill()
        HELPERS.pop(False, None)
        raise
    except BaseException:
        h.kill()
        HELPERS.pop(False, None)
        raise


def _real(h, names, ops, root, how, raises, slow, more, info):
    with Scratch() as top:
        base = top + b"/" + root
        os.mkdir(base)
        t = fsmodel.Tree(base, names)
        for o in ops[:len(ops) // 4]:
            t.act(o)
        t.want, t.changes = [], 0
        t.log.append("-- watch")
        r = h.do(op="open", id=1, path=norm(t.w), raises=raises, slow=slow)
        if r.get("error"):
            raise Violation(f"open: {r}")
        s = Sut(h, 1)
        f = fsmodel.Session(t, s)
        f.start()
        ev = s.events()
        if not ev or (ev[0].et, ev[0].pt, ev[0].path) != ("create", "watcher", norm(b"s/self/live@" + t.w)):
            raise Violation(f"its first event is {ev[:1]}")
        f.run(ops[len(ops) // 4:])
        # Some which it has to report while it's closed
        for i in range(more):
            t.touch(t.w + b"/more%d" % i)
        s.settle()
        if LANG == "py":
            how = ["close", "exit", "error", "del"][how % 4]
            r = h.do(op="close", id=1, how=how)
        else:
            how = "close"
            r = h.do(op="close", id=1)
            if not r["ok"]:
                raise Violation(f"close: {r}")
        end = time.time() + runner.patience()
        while time.time() < end:
            ev = s.events()
            if any(e.pt == "watcher" for e in ev[f.at:]):
                break
            time.sleep(0.001)
        s.settle()
        h.do(op="busy", us=1)
        ev = s.events()
        s.settle()
        rest = [e for e in ev[f.at:] if not f.is_sync(e)]
        if not rest or (rest[-1].et, rest[-1].pt, rest[-1].path) != ("destroy", "watcher", norm(b"s/self/die@" + t.w)):
            raise Violation(f"its last event is {rest[-1:]}, {how}")
        for i, e in enumerate(rest[:-1]):
            if (e.et, e.pt, e.path) != ("create", "file", norm(t.w + b"/more%d" % i)):
                raise Violation(f"{e} isn't file {i}")
        if LANG == "rs":
            h.do(op="drop", id=1)
        h.do(op="forget")
        with h.m:
            n = len(h.events.get(1, ()))
        if n != len(ev):
            raise Violation(f"an event after it was closed: {h.events[1][len(ev):]}")
        info.count("events", n)
        info.count("changes", t.changes)
        for k, v in t.kinds.items():
            info.count("change: " + k, v)
        info.nontrivial = t.changes >= 3
        info.describe = f"{how}{', raises' if raises else ''}{', slow' if slow else ''}: {' '.join(t.log)[:300]}; names {[shown(n) for n in names][:3]}"


# ---- programs which end ----

def run_ending(case, info):
    ws, how, real, churn = case
    if LANG == "node" and how in ("error", "natural open"):
        how = "exit"
    h = Helper(not real)
    try:
        with Scratch() as base:
            _ending(h, base, ws, how, real, churn, info)
    finally:
        h.kill()


def _ending(h, base, ws, how, real, churn, info):
    opened, sent, live, n = [], {}, [], 0
    os.mkdir(base + b"/w")
    over = threading.Event()

    def changes():
        k = 0
        while not over.is_set():
            k += 1
            p = base + b"/w/f%d" % (k % 50)
            os.close(os.open(p, os.O_CREAT | os.O_WRONLY, 0o600))
            if k % 3 == 0:
                os.unlink(p)

    th = threading.Thread(target=changes, daemon=True)
    try:
        if real:
            th.start()
        for i, (token, evs, reps, close, worker, fails) in enumerate(ws):
            wid = i + 1
            fails = fails and not real
            worker = worker and LANG == "node" and not fails
            token = token + i if token < 2**63 else token - i
            if not real:
                h.say(f"plan {token} {int(not fails)} 1 0")
            r = h.do(op="worker" if worker else "open", id=wid, path=os.fsdecode(base + b"/w"), json=False)
            if bool(r.get("error")) != fails:
                raise Violation(f"open: {r}")
            if fails:
                info.count("failed open")
                continue
            opened.append(token)
            es = [Ev(*e) for e in evs]
            sent[wid] = es
            if not real:
                for e in es:
                    h.say(e.line("ev", token))
                if reps and es:
                    h.say(es[0].line("rep", token, reps))
            live.append([wid, token, close or how == "natural", worker])
        for w in list(live):
            if w[2]:
                # In the middle of its events, or not
                if not real and w[0] % 2:
                    h.sync()
                r = h.do(op="terminate" if w[3] else "close", id=w[0], how="close")
                if r.get("error"):
                    raise Violation(f"close: {r}")
                info.count("worker terminated" if w[3] else "closed")
                live.remove(w)
                if LANG == "rs":
                    h.do(op="drop", id=w[0])
        if not real:
            h.sync()
        h.do(op="ending", how=how.split()[0])
        if how.startswith("natural"):
            h.p.stdin.close()
        try:
            rc = h.p.wait(runner.patience())
        except subprocess.TimeoutExpired:
            raise Violation(f"it doesn't end, by {how}, with {len(live)} open {h.errors()}")
        want = 0 if how != "error" else {"py": 1, "rs": 101}[LANG]
        if rc != want:
            raise Violation(f"it ended by {how} with {len(live)} open, and its exit status is {rc} rather than {want} {h.errors()}")
        for wid, es in sent.items():
            with h.m:
                got = list(h.events.get(wid, ()))
            if real:
                continue
            for e, g in zip(es, got):
                x = agree(e, g)
                if x:
                    raise Violation(f"watcher {wid}: {x}: {e!r} arrived as {g}")
        # (What exits at once closes nothing.)
        if not real and not (LANG != "py" and how == "exit"):
            end = time.time() + runner.patience()
            for t in opened:
                def closes():
                    with h.m:
                        return [x for x in h.logged if x.startswith(f"close {t} ")]
                while f"close {t} once" not in closes() and time.time() < end:
                    time.sleep(0.01)
                if f"close {t} once" not in closes():
                    raise Violation(f"it ended by {how}, and never closed what it opened: {h.logged[-10:]}")
    except Violation as e:
        raise Violation(f"{e}\n  ended by {how}, {'real' if real else 'scripted'}: {ws}")
    finally:
        over.set()
        if real:
            th.join()
    info.count("ended by " + how + (" with some open" if live else ""))
    info.nontrivial = bool(opened)
    info.describe = f"ended by {how}, with {len(live)} of {len(opened)} open, {'with the library' if real else 'scripted'}"


_ending_ws = st.lists(st.tuples(st.integers(16, 2**64 - 16), st.lists(events, max_size=3), st.sampled_from([0, 0, 50, 3000]), st.booleans(), st.sampled_from([False, False, True]), st.sampled_from([False] * 4 + [True])), min_size=1, max_size=3)
endings = st.tuples(_ending_ws, st.sampled_from(["natural", "natural open", "exit", "error"]), st.sampled_from([False, False, True]), st.booleans())

utf8 = LANG != "py"
roots = st.one_of(st.just(b"r"), fsmodel.any_name(utf8).filter(lambda n: len(n) < 100))
runner.main([
    Spec("scripted", st.tuples(watchers, actions, st.lists(st.integers(0, 2), max_size=3)), run_scripted,
         "the package with a stand-in for the C library, which delivers random events (any values; bursts, pauses, before open returns and while it's closed) to one to three watchers, "
         "while the program is busy, slow or throws, or polls late: each arrives, as it was, once and in order, and each is opened and closed once; non-trivial: five events or more"),
    Spec("real", st.tuples(fsmodel.ops(utf8=LANG == "node", most=18), roots, st.integers(0, 3), st.sampled_from([0, 0, 1, 3]), st.sampled_from([0, 0, 0, 100]), st.integers(0, 4)), run_real,
         "the package with the library, and random histories (done while it's stopped), against a model of the directory tree; non-trivial: three changes or more"),
    Spec("ending", endings, run_ending,
         "programs which end (by themselves, by exiting or by an error; with everything closed or not; workers too) while events are delivered: no crash, its exit status is its own, nothing keeps it alive, "
         "and each watcher is closed; non-trivial: at least one was open"),
], kill_all)
