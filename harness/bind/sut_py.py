"""The Python package, told what to do by lines of JSON. (Run with the package's parent as its first argument.)"""
import ctypes
import gc
import json
import os
import sys
import threading
import time

sys.path.insert(0, sys.argv[1])
lib = sys.argv[2]

# Wherever the package looks for its library, it finds the one it's given.
_real, _exists = ctypes.CDLL, os.path.exists


class CDLL(_real):
    def __init__(self, name, *a, **k):
        super().__init__(lib if name and "watcher-c" in str(name) else name, *a, **k)


ctypes.CDLL = CDLL
os.path.exists = lambda p: True if "watcher-c" in str(p) else _exists(p)

import watcher  # noqa: E402

out_lock = threading.Lock()


def say(**k):
    b = (json.dumps(k) + "\n").encode()
    with out_lock:
        while b:
            b = b[os.write(1, b):]


class W:
    pass


ws = {}


def event(w, e):
    w.n += 1
    # (Not everything which happens here may go wrong.)
    text = [str(e), repr(e)]
    say(e=w.id, t=e.effect_time, path=e.path_name, assoc=e.associated_path_name, et=e.effect_type.name, pt=e.path_type.name,
        values=[e.effect_type.value, e.path_type.value], json=e.to_json() if w.json else None, ints=type(e.effect_time) is int,
        text=all(isinstance(t, str) and t for t in text), main=threading.current_thread() is threading.main_thread())
    if w.slow:
        time.sleep(w.slow / 1e6)
    if w.raises and w.n % w.raises == 0:
        raise RuntimeError("on purpose")


def main():
    for line in sys.stdin.buffer:
        c = json.loads(line)
        op = c["op"]
        try:
            if op == "open":
                w = W()
                w.id, w.n, w.json, w.slow, w.raises = c["id"], 0, c.get("json", True), c.get("slow", 0), c.get("raises", 0)
                ws[w.id] = w
                w.watch = watcher.Watch(c["path"], (lambda w: lambda e: event(w, e))(w))
                if c.get("enter"):
                    if w.watch.__enter__() is not w.watch:
                        say(r="open", id=c["id"], error="__enter__ gives something else")
                        continue
                say(r="open", id=c["id"])
            elif op == "close":
                w = ws[c["id"]]
                how = c["how"]
                if how == "close":
                    w.watch.close()
                elif how == "exit":
                    w.watch.__exit__(None, None, None)
                elif how == "error":
                    try:
                        with w.watch:
                            raise KeyError("on purpose")
                    except KeyError:
                        pass
                else:
                    w.watch = None
                    gc.collect()
                say(r="close", id=c["id"])
            elif op == "again":
                w = ws[c["id"]]
                if w.watch is not None:
                    w.watch.close()
                say(r="again", id=c["id"])
            elif op == "busy":
                gc.collect()
                junk = [bytes(100 + i) for i in range(2000)]
                end = time.time() + c["us"] / 1e6
                while time.time() < end:
                    junk.append(len(junk))
                del junk
                gc.collect()
                say(r="busy")
            elif op == "ending":
                say(r="ending")
                if c["how"] == "exit":
                    sys.exit(0)
                elif c["how"] == "error":
                    raise KeyError("on purpose")
            elif op == "forget":
                ws.clear()
                gc.collect()
                say(r="forget")
        except RuntimeError as e:
            say(r=op, id=c.get("id"), error=str(e))


main()
