"""P01-P08, P16-P18: exhaustive exploration of the marshallers (sig/)."""
import json, os
from common import *

SIG = os.path.join(VERIF, "sig")
CONF = {"P01": ("sysv", 1 | 2 | 4), "P02": ("sysv", 1 | 2 | 4), "P03": ("sysv", 1 | 2 | 8), "P04": ("sysv", 1 | 2 | 8),
        "P05": ("ms", 1 | 2 | 4), "P06": ("ms", 1 | 2 | 8)}
ARG, AL, ALIGN, RET, STATUS, COUNT = 1, 2, 4, 8, 256, 512
CONFCAT = {"P01": ARG | COUNT | STATUS, "P02": RET | STATUS, "P03": ARG | COUNT | STATUS, "P04": RET | STATUS,
           "P05": ARG | RET | COUNT | STATUS, "P06": ARG | RET | COUNT | STATUS}
CRASH = 1024


def build():
    b = Builder("sig", tree(SIG))
    if not b.ready():
        b.start()
        objs = b.libffi()
        must(["gcc", "-O2", "-g", "-w", *b.incflags()[:1], "-c", SIG + "/sigx.c", "-o", b.path("sigx.o")])
        must(["gcc", "-c", SIG + "/x64.S", "-o", b.path("x64.o")])
        must(["gcc", "-o", b.path("sigx"), b.path("sigx.o"), b.path("x64.o")] + objs + ["-lpthread"])
        b.finish()
    return b


def build_conf(b, tier):
    """Functions for a set of signatures, compiled by gcc and clang, linked to the explorer."""
    exe = b.path("sigxg-" + tier)
    if os.path.exists(exe):
        return exe
    n = 8 if tier == "quick" else 32
    jobs = [(c, i) for i in range(n) for c in ("gcc", "clang")]

    def one(job):
        c, i = job
        src = b.path("g_%s_%s_%d.c" % (tier, c, i))
        with open(src, "w") as f:
            f.write(must([b.path("sigx"), "gencode", tier, str(i), str(n), c]).stdout)
        must([c, "-w", "-O1", "-c", src, "-o", src[:-2] + ".o"] + (["-Wno-psabi"] if c == "gcc" else []))
        return src[:-2] + ".o"
    objs = pmap(one, jobs)
    with open(b.path("gt.c"), "w") as f:
        for c, i in jobs:
            f.write("extern int gen_%s_%d[];\n" % (c, i))
        f.write("void *gen_tables[] = {" + ",".join("gen_%s_%d" % j for j in jobs) + ",0};\n")
    must(["gcc", "-w", "-c", b.path("gt.c"), "-o", b.path("gt.o")])
    lib = [b.path("obj", s.replace("/", "_") + ".o") for s in C_SRC + S_SRC]
    must(["gcc", "-o", exe, b.path("sigx.o"), b.path("x64.o"), b.path("gt.o")] + objs + lib + ["-lpthread"])
    return exe


def explore(b, pid, tier):
    out = b.path("out-%s-%s.json" % (pid, tier))
    r = run([b.path("sigx"), pid, tier, out, str(NCPU)])
    if r.returncode not in (0, 10):
        raise MachineryError("explorer ended with %d: %s" % (r.returncode, r.stderr[-500:]))
    return json.load(open(out))


def check(pid, tier, res):
    b = build()
    d = explore(b, pid, tier)
    again = None
    for f in d["failures"]:
        rr = [run([b.path("sigx"), "replay", f["case"], str(d["mask"] | CRASH)]) for _ in range(2)]
        alone = all(x.returncode == 10 or x.returncode < 0 for x in rr)
        if not alone:
            if again is None:
                again = explore(b, pid, tier)["failures"] + explore(b, pid, tier)["failures"]
            if not again:
                raise MachineryError("unconfirmed failure: %s: %s" % (f["case"], f["msg"]))
        msg = f["msg"] if f["cat"] != CRASH else "%s (%s)" % (f["msg"], rr[0].stdout.strip()[-200:])
        res.fail(f["case"], msg, "sigx\n%s\n%d\n# %s\n" % (f["case"] if alone else "explore " + pid, d["mask"], f["msg"]))
    conf = {}
    if pid in CONF:
        abi, mask = CONF[pid]
        exe = build_conf(b, tier)
        out = b.path("conf-%s.json" % pid)
        r = run([exe, "conf", abi, out, str(mask)])
        if r.returncode:
            # a crash in library code: find out whether the model side alone is sound
            r2 = run([exe, "conf", abi, out, str(mask & 3)])
            if r2.returncode and not res.failures:
                raise MachineryError("conformance run crashed without the library: %d" % r2.returncode)
            res.fail("conformance crash", "calls between the library and compiled functions crash (%d)" % r.returncode, "sigxconf\n%s %d %s\n" % (abi, mask, tier))
        else:
            c = json.load(open(out))
            for f in c["failures"]:
                if f["api"] in (20, 21):
                    if res.failures:
                        continue
                    raise MachineryError("the model disagrees with a compiler: %s: %s" % (f["case"], f["msg"]))
                if f["cat"] & CONFCAT[pid]:
                    res.fail(f["case"], f["msg"], "sigxconf\n%s %d %s\n# %s\n# %s\n" % (abi, mask, tier, f["case"], f["msg"]))
            conf = {k: c[k] for k in ("functions", "model_vs_callee", "model_vs_caller", "call_to_compiled", "compiled_to_closure")}
    res.add(d["states"], d["transitions"], d["runs"] + sum(conf.get(k, 0) for k in ("call_to_compiled", "compiled_to_closure")), d["samples"],
            types=d["types"], signatures_enumerated=d["enumerated"], argument_values_checked=d["args_checked"],
            **({"model_vs_compilers": conf} if conf else {}))
    res.assumptions += ["values are drawn from four bit patterns per type; the marshaller moves bytes and does not branch on them",
                        "placement beyond the enumerated argument lists follows from the finite register state reached by breadth-first search"]


def replay(lines):
    b = build()
    if lines[0] == "sigx":
        if lines[1].startswith("explore "):
            d = explore(b, lines[1].split()[1], "quick")
            print(json.dumps(d["failures"], indent=1))
            return 1 if d["failures"] else 0
        r = run([b.path("sigx"), "replay", lines[1], str(int(lines[2]) | CRASH)])
        print(r.stdout, r.stderr, r.returncode)
        return 0 if r.returncode == 0 else 1
    abi, mask, tier = lines[1].split()
    exe = build_conf(b, tier)
    out = b.path("conf-replay.json")
    r = run([exe, "conf", abi, out, mask])
    if r.returncode:
        return 1
    c = json.load(open(out))
    print(json.dumps(c["failures"], indent=1))
    return 1 if c["failures"] else 0
