"""Which generators decide which property."""
import build as B



def three(driver, prop, n=(3, 3, 2)):
    return [dict(bin=f"{driver}.{f}", prop=prop, workers=k) for f, k in zip(("inc", "dev", "c"), n)]


KERNEL = "the kernel's inotify is trusted to report what happens in a watched directory"
MODEL = "the model of a directory tree in harness/world.cpp"

CHECKS = {}



FANSIM = ["env", "WVERIF_FANSIM=1"]


def histories(pid, prop, **kw):
    CHECKS[pid] = dict(level="exploration", build=lambda: both("fs", ["world.cpp", "p_fs.cpp"])(), jobs=three("fs", prop, (2, 2, 1)) + three("fsf", prop, (1, 1, 1)), quick=25, thorough=420,
                       assumptions=[KERNEL, MODEL], technique="model-based generation of histories (rapidcheck)", **kw)


histories("C06", "exact")
histories("C07", "newdirs")
histories("C08", "renames")
histories("C09", "truthful")
histories("C10", "noise")
histories("C20", "times")


def ser():
    return {k: [v] for k, v in B.build(B.standalone("ser", "p_ser.cpp")).items()}


def texts(pid, prop, technique):
    CHECKS[pid] = dict(level="exploration", build=ser, jobs=[dict(bin="ser.inc", prop=prop, workers=4), dict(bin="ser.dev", prop=prop, workers=4)],
                       quick=20, thorough=240, technique=technique, assumptions=["the JSON reader in harness/json.hpp"])


texts("C17", "json", "round trip of random events through text and a strict parser (rapidcheck)")
texts("C18", "numbers", "random values against reference conversions (rapidcheck)")
texts("C19", "values", "model-based sequences of operations on events (rapidcheck)")


def driver(name, sources, flavors=("inc", "dev", "c"), mode="asan"):
    return lambda: {k: [v] for k, v in B.build(B.driver(name, sources, flavors, mode)).items()}


def lives(pid, prop, technique, **kw):
    CHECKS[pid] = dict(level="exploration", build=driver("life", ["world.cpp", "p_life.cpp"]), jobs=three("life", prop),
                       quick=25, thorough=300, technique=technique, assumptions=[KERNEL], **kw)


LIFE = "random lives of watchers, judged by an invariant over all of their events (rapidcheck)"
lives("C01", "brackets", LIFE)
lives("C02", "verdicts", LIFE)
lives("C03", "endings", LIFE)
lives("C27", "gives", "model-based generation of histories, against the process's own descriptors, watches, threads and memory (rapidcheck)")


def both(name, sources):
    """With inotify, and with the simulation of fanotify (whose events aren't aligned as UBSan wants)"""
    return lambda: {**driver(name, sources)(), **{k: [*FANSIM, *v] for k, v in driver(f"{name}f", sources, mode="asan4")().items()}}


CHECKS["C05"] = dict(level="exploration", build=both("multi", ["world.cpp", "p_multi.cpp"]), jobs=three("multi", "multi", (2, 2, 1)) + three("multif", "multi", (1, 1, 1)),
                     quick=25, thorough=420, assumptions=[KERNEL, MODEL], technique="model-based generation of histories with several watchers (rapidcheck)")


def race():
    r = {f"{k}.tsan": [v] for k, v in B.build(B.driver("race", ["p_race.cpp"], ("inc", "dev", "c"), "tsan")).items()}
    return r


CHECKS["C04"] = dict(level="exploration", build=race, jobs=[dict(bin="race.inc.tsan", prop="race", workers=3), dict(bin="race.dev.tsan", prop="race", workers=2), dict(bin="race.c.tsan", prop="race", workers=3)],
                     quick=30, thorough=420, trust_sanitizer=True, assumptions=["ThreadSanitizer's detection of data races"],
                     technique="random multi-threaded programs of operations, under ThreadSanitizer (rapidcheck)")

FAULT = driver("fault", ["world.cpp", "p_fault.cpp"])
for pid, ps, technique in (
    ("C11", ("overflow", "strays"), "model-based generation of histories with real and injected overflows and stray events (rapidcheck)"),
    ("C12", ("interruptions",), "model-based generation of histories with injected interruptions and real signals (rapidcheck)"),
    ("C13", ("faults",), "model-based generation of histories with injected failures of system interfaces (rapidcheck)"),
):
    CHECKS[pid] = dict(level="exploration", build=FAULT, jobs=[j for p in ps for j in three("fault", p, (2, 1, 1) if len(ps) > 1 else (3, 3, 2))],
                       quick=30, thorough=420, assumptions=[KERNEL, MODEL], technique=technique)

FAN = driver("fan", ["world.cpp", "p_fan.cpp"], mode="asan4")
FANKERNEL = "the made-up batches look like the kernel's (checked by hand against fanotify(7) and real batches)"
for pid, prop, technique, assume in (
    ("C14", "plain", "structured generation of kernel event batches, against a model (rapidcheck)", FANKERNEL),
    ("C15", "odd", "structured generation of kernel event batches with odd events, against a model (rapidcheck)", FANKERNEL),
    ("C16", "fallback", "model-based generation of histories with failing fanotify (rapidcheck)", KERNEL),
):
    CHECKS[pid] = dict(level="exploration", build=FAN, jobs=three("fan", prop), quick=25, thorough=300, assumptions=[assume], technique=technique)


def fault_and_fan():
    return {**FAULT(), **FAN()}


CHECKS["C16"].update(build=lambda: {k: [*FANSIM, *v] for k, v in FAN().items()}, assumptions=[KERNEL, MODEL])

CHECKS["C13"].update(build=fault_and_fan, jobs=three("fault", "faults", (2, 2, 1)) + three("fan", "fanfaults", (1, 1, 1)))

CHECKS["C27"].update(build=lambda: {**driver("life", ["world.cpp", "p_life.cpp"])(), **FAN()}, jobs=three("life", "gives", (2, 2, 1)) + three("fan", "fanholds", (1, 1, 1)))

CHECKS["C30"] = dict(level="exploration", build=driver("scale", ["world.cpp", "p_scale.cpp"]), jobs=three("scale", "scale", (2, 2, 2)), quick=40, thorough=600,
                     assumptions=[KERNEL, MODEL], technique="model-based generation of large histories (rapidcheck)")


# Two builds, side by side
CHECKS["C28"] = dict(level="exploration", build=lambda: {"twin": B.twins(("inc", "dev"))},
                     jobs=[dict(bin="twin", prop=p, workers=n) for p, n in (("histories", 3), ("failures", 2), ("batches", 2), ("texts", 1))], quick=25, thorough=420,
                     assumptions=[KERNEL], technique="differential testing of the two on random histories, failures, batches and texts (rapidcheck)")


def capi():
    d = B.driver("capi", ["p_capi.cpp"], ("capi",))
    t = B.driver("capi_tsan", ["p_capi.cpp"], ("capi",), "tsan")
    r = B.build(d + t)
    return {"capi": [r["capi.capi"]], "capi.tsan": [r["capi_tsan.capi"]], "twin": B.twins(("inc", "c"))}


CHECKS["C23"] = dict(level="exploration", build=capi,
                     jobs=[dict(bin="capi", prop="capi", workers=3), dict(bin="capi.tsan", prop="capi", workers=1)]
                     + [dict(bin="twin", prop=p, workers=n) for p, n in (("histories", 2), ("failures", 1), ("batches", 1))], quick=25, thorough=420,
                     trust_sanitizer=True, assumptions=[KERNEL], technique="random programs for the C interface against a model of its handles, and differential testing against the C++ interface (rapidcheck)")


def cli(pid, props, technique, **kw):
    CHECKS[pid] = dict(level="exploration", build=lambda: {"cli": B.cli()}, jobs=[dict(bin="cli", prop=p, workers=n) for p, n in props],
                       quick=30, thorough=420, technique=technique, **kw)


cli("C21", (("lines", 6), ("failing", 2)), "model-based generation of histories for the program, whose output is parsed strictly (Hypothesis)", assumptions=[KERNEL, "the model of a directory tree in harness/py/fsmodel.py"])
cli("C22", (("arguments", 7), ("times", 1)), "structured generation of argument vectors against a table of units and spellings (Hypothesis)", assumptions=["waits are seen by replacing the C library's"])


def binding(pid, lang, name):
    CHECKS[pid] = dict(level="exploration", build=lambda: {"bind": B.bind(lang)}, jobs=[dict(bin="bind", prop=p, workers=n) for p, n in (("scripted", 4), ("real", 2), ("ending", 2))],
                       quick=30, thorough=420, technique=f"model-based generation of events, histories and programs for the {name}, with a stand-in for the C library and with the library (Hypothesis)",
                       assumptions=[KERNEL, "the model of a directory tree in harness/py/fsmodel.py", "the stand-in for the C library in harness/fake_c.cpp"])


binding("C24", "py", "Python package")
binding("C25", "rs", "Rust crate")
binding("C26", "node", "Node.js package")
