"""Builds what a check needs, from the harness and /repo's working tree.

Objects are kept by a hash of all that goes into them, so that nothing stale is
ever used, and nothing is built twice.
"""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WVERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
B = os.path.join(HERE, "build")

INC = f"{REPO}/include"
DEV = f"{REPO}/devel/include"
CINC = f"{REPO}/watcher-c/include"

WARN = ["-Wall", "-Wextra"]
ASAN = ["-std=c++17", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"]
TSAN = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-DIP_MINIMAL"]
# (The kernel aligns fanotify's events to four bytes only, and its manual's example reads them in place, too.)
ASAN4 = [*ASAN, "-fno-sanitize=alignment"]
PLAIN = ["-std=c++17", "-O2", "-g", "-U_FORTIFY_SOURCE"]


class BuildError(Exception):
    pass


def _hash_tree(paths):
    h = hashlib.sha1()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def sut_inputs():
    return [INC, DEV, f"{REPO}/watcher-c", f"{REPO}/src", f"{REPO}/watcher-py/watcher", f"{REPO}/watcher-rs", f"{REPO}/watcher-nodejs/lib"]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def harness_headers():
    return sorted(os.path.join(H, f) for f in os.listdir(H) if f.endswith(".hpp"))


def obj(src, flags, incs=(), deps=(), cxx="g++"):
    """An object file: (what to run, where it is)."""
    cmd = [cxx, *flags, f"-I{H}", *[f"-I{i}" for i in incs], "-c", src]
    key = hashlib.sha1((" ".join(cmd) + _hash_tree([src, *harness_headers(), *incs, *deps])).encode()).hexdigest()[:20]
    out = os.path.join(B, "obj", os.path.basename(src).replace(".", "_") + "-" + key + ".o")
    return cmd, out


def build(specs):
    """specs: list of (name, [obj], [link args], cxx). Returns {name: path}."""
    os.makedirs(os.path.join(B, "obj"), exist_ok=True)
    os.makedirs(os.path.join(B, "bin"), exist_ok=True)
    todo = {}
    for _, objs, _, _ in specs:
        for cmd, out in objs:
            if not os.path.exists(out):
                todo[out] = cmd

    def one(item):
        out, cmd = item
        tmp = f"{out}.{os.getpid()}.tmp"
        run([*cmd, "-o", tmp])
        os.replace(tmp, out)

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, todo.items()))

    def link(s):
        name, objs, args, cxx = s
        key = hashlib.sha1(" ".join([o for _, o in objs] + list(args)).encode()).hexdigest()[:16]
        out = os.path.join(B, "bin", f"{name}-{key}")
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}.tmp"
            run([cxx, *[o for _, o in objs], *args, "-o", tmp])
            os.replace(tmp, out)
        return name, out

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return dict(ex.map(link, specs))


LINK = ["-lrapidcheck", "-lpthread", "-ldl"]


def suts(flags, which):
    """The code under test, by flavor."""
    r = {}
    for f in which:
        if f == "inc":
            r[f] = [obj(f"{H}/sut_cpp.cpp", [*flags, *WARN], [INC])]
        elif f == "dev":
            r[f] = [obj(f"{H}/sut_cpp.cpp", [*flags, *WARN], [DEV])]
        elif f == "c":
            r[f] = [
                obj(f"{H}/sut_c.cpp", [*flags, *WARN], [CINC]),
                obj(f"{REPO}/watcher-c/src/watcher-c.cpp", flags, [CINC, INC]),
            ]
        elif f == "capi":   # (The driver is the C program.)
            r[f] = [obj(f"{REPO}/watcher-c/src/watcher-c.cpp", flags, [CINC, INC])]
    return r


def driver(name, sources, flavors, mode="asan", extra=()):
    """Specs for one driver, in several flavors: name.inc, name.dev, name.c"""
    flags = {"asan": ASAN, "asan4": ASAN4, "tsan": TSAN, "plain": PLAIN}[mode]
    san = [f for f in flags if f.startswith("-fsanitize")]
    common = [obj(f"{H}/{s}", [*flags, *WARN], [CINC] if s == "p_capi.cpp" else ()) for s in ["core.cpp", "ip.cpp", *sources]]
    return [
        (f"{name}.{f}", [*common, *o], [*san, *LINK, *extra], "g++")
        for f, o in suts(flags, flavors).items()
    ]


def standalone(name, source, mode="asan", extra=()):
    """A driver which includes the header itself: name.inc, name.dev"""
    flags = {"asan": ASAN, "asan4": ASAN4, "tsan": TSAN, "plain": PLAIN}[mode]
    san = [f for f in flags if f.startswith("-fsanitize")]
    common = [obj(f"{H}/{s}", [*flags, *WARN]) for s in ["core.cpp", "ip.cpp"]]
    return [
        (f"{name}.{f}", [*common, obj(f"{H}/{source}", [*flags, *WARN], [i])], [*san, *LINK, *extra], "g++")
        for f, i in (("inc", INC), ("dev", DEV))
    ]


SO = ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fno-gnu-unique"]


def twins(which, source="p_twin.cpp", extra=("world.cpp",)):
    """A driver which loads two builds: its arguments are their shared objects."""
    flags = ASAN4
    san = [f for f in flags if f.startswith("-fsanitize")]
    specs = [("twin", [obj(f"{H}/{s}", [*flags, *WARN]) for s in ["core.cpp", "ip.cpp", *extra, source]], [*san, *LINK, "-rdynamic"], "g++")]
    for f in which:
        if f == "c":
            objs = [obj(f"{H}/twin_c.cpp", [*flags, *WARN, *SO], [CINC], [f"{H}/sut_c.cpp"]),
                    obj(f"{REPO}/watcher-c/src/watcher-c.cpp", [*flags, *SO], [CINC, INC])]
        else:
            objs = [obj(f"{H}/twin_cpp.cpp", [*flags, *WARN, *SO], [INC if f == "inc" else DEV], [f"{H}/sut_cpp.cpp"])]
        specs.append((f"twin.{f}.so", objs, [*san, "-shared", "-Wl,-Bsymbolic"], "g++"))
    r = build(specs)
    return [r["twin"], *[r[f"twin.{f}.so"] for f in which]]


PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY):
    PY = "python3-vt"


def cli():
    """The program, with what cli_shim.cpp replaces."""
    san = [f for f in ASAN if f.startswith("-fsanitize")]
    wrap = ["-Wl,--wrap=pthread_cond_timedwait", "-Wl,--wrap=pthread_cond_clockwait"]
    r = build([("cli", [obj(f"{H}/cli_shim.cpp", [*ASAN, *WARN]), obj(f"{REPO}/src/wtr/watcher/main.cpp", ASAN, [INC])], [*san, *wrap, "-lpthread"], "g++")])
    return [PY, f"{H}/py/p_cli.py", r["cli"]]


BIND = f"{H}/bind"


def _kept(name, key, make):
    """A directory, made once for what goes into it."""
    k = hashlib.sha1(key.encode()).hexdigest()[:16]
    out = os.path.join(B, f"{name}-{k}")
    if not os.path.isdir(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        subprocess.run(["rm", "-rf", tmp], check=True)
        os.makedirs(tmp)
        make(tmp)
        try:
            os.rename(tmp, out)
        except OSError:
            subprocess.run(["rm", "-rf", tmp], check=True)
    return out


def clibs():
    """Directories with a libwatcher-c.so: the stand-in, and the real one."""
    flags = ["-std=c++17", "-O1", "-g", "-fPIC", "-U_FORTIFY_SOURCE"]
    so = ["-shared", "-Wl,-soname,libwatcher-c.so", "-lpthread"]
    nofan = ["-Dfanotify_init=wverif_fanotify_init", "-Dinotify_init1=wverif_inotify_init1"]

    def fake(d):
        run(["g++", *flags, *WARN, f"-I{CINC}", f"{H}/fake_c.cpp", *so, "-o", f"{d}/libwatcher-c.so"])

    def real(d):
        run(["g++", *flags, *nofan, f"-I{H}", f"-I{CINC}", f"-I{INC}", f"{REPO}/watcher-c/src/watcher-c.cpp", f"{BIND}/nofan.cpp", *so, "-o", f"{d}/libwatcher-c.so"])

    with cf.ThreadPoolExecutor() as ex:
        a = ex.submit(_kept, "fake", _hash_tree([f"{H}/fake_c.cpp", CINC]), fake)
        b = ex.submit(_kept, "real", _hash_tree([f"{REPO}/watcher-c", INC, f"{BIND}/nofan.cpp", f"{H}/instances.hpp"]), real)
        return a.result(), b.result()


def bind(lang):
    """A driver for one language's package: its arguments are the directories with the libraries, and how to run what uses the package."""
    fake, real = clibs()
    if lang == "py":
        sut = ["/usr/bin/python3" if os.path.exists("/usr/bin/python3") else PY, f"{BIND}/sut_py.py", f"{REPO}/watcher-py"]
    elif lang == "node":
        def node(d):
            os.makedirs(f"{d}/build/Release")
            run(["g++", "-std=c++17", "-O1", "-g", "-fPIC", "-shared", "-U_FORTIFY_SOURCE", f"-I{CINC}", "-I/usr/include/node", f"{REPO}/watcher-nodejs/lib/watcher-napi.cpp",
                 f"-L{fake}", "-lwatcher-c", "-o", f"{d}/build/Release/watcher-napi.node"])
            run(["/opt/veriftools/node/node_modules/.bin/esbuild", f"{REPO}/watcher-nodejs/lib/watcher.ts", "--format=esm", "--target=es2022", f"--outfile={d}/build/watcher.js"])
            with open(f"{d}/package.json", "w") as f:
                f.write('{"type": "module"}\n')
        d = _kept("node", _hash_tree([f"{REPO}/watcher-nodejs/lib", CINC]), node)
        sut = ["node", "--expose-gc", f"{BIND}/sut_node.mjs", f"{d}/build/watcher.js"]
    else:
        def rs(d):
            for p in ("wtr/src", "src"):
                os.makedirs(f"{d}/{p}")
            with open(f"{d}/wtr/Cargo.toml", "w") as f:
                f.write(f'''[package]
name = "wtr-watcher"
version = "0.0.0"
edition = "2021"
build = "{BIND}/rs/build.rs"
[lib]
name = "wtr_watcher"
path = "{REPO}/watcher-rs/src/lib.rs"
[[bin]]
name = "wtr-watcher"
path = "{REPO}/watcher-rs/src/main.rs"
[features]
default = ["serde"]
serde = []
[dependencies]
futures = {{ version = "0", features = ["alloc", "std"], default-features = false }}
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"
tokio = {{ version = "1", features = ["rt", "macros", "signal"] }}
''')
            with open(f"{d}/Cargo.toml", "w") as f:
                f.write(f'''[package]
name = "sut-rs"
version = "0.0.0"
edition = "2021"
[[bin]]
name = "sut-rs"
path = "{BIND}/rs/src/main.rs"
[dependencies]
wtr-watcher = {{ path = "wtr" }}
futures = {{ version = "0", features = ["alloc", "std"], default-features = false }}
serde_json = "1"
[workspace]
members = ["wtr"]
''')
            env = dict(os.environ, WVERIF_HEADER=f"{CINC}/wtr/watcher-c.h", WVERIF_LIB=fake, CARGO_TARGET_DIR=f"{B}/rs-target")
            run(["cargo", "build", "--offline", "--workspace", "--bins"], env=env, cwd=d)
            for x in ("sut-rs", "wtr-watcher"):
                run(["cp", f"{B}/rs-target/debug/{x}", f"{d}/{x}"])
        d = _kept("rs", _hash_tree([f"{REPO}/watcher-rs", CINC, f"{BIND}/rs"]), rs)
        sut = [f"{d}/sut-rs"]
    return [PY, f"{H}/py/p_bind.py", lang, fake, real, *sut]


if __name__ == "__main__":
    print(build(driver("fs", ["world.cpp", "p_fs.cpp"], sys.argv[1:] or ["inc"])))
