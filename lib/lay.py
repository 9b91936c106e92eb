"""P09, P10: type layouts and request verdicts (lay/)."""
import json, os
from common import *

LAY = os.path.join(VERIF, "lay")


def build():
    b = Builder("lay", tree(LAY) + [os.path.join(VERIF, "sig/model.h")])
    if not b.ready():
        b.start()
        objs = b.libffi()
        must(["gcc", "-O2", "-g", "-w", *b.incflags()[:1], "-c", LAY + "/layx.c", "-o", b.path("layx.o")])
        must(["gcc", "-o", b.path("layx"), b.path("layx.o")] + objs)
        b.finish()
    return b


def build_conf(b, tier):
    exe = b.path("layc-" + tier)
    if os.path.exists(exe):
        return exe
    n = 8
    jobs = [(c, i) for i in range(n) for c in ("gcc", "clang")]

    def one(job):
        c, i = job
        src = b.path("l_%s_%s_%d.c" % (tier, c, i))
        with open(src, "w") as f:
            f.write(must([b.path("layx"), "gencode", tier, str(i), str(n), c]).stdout)
        must([c, "-w", "-O0", "-c", src, "-o", src[:-2] + ".o"])
        os.unlink(src)
        return src[:-2] + ".o"
    objs = pmap(one, jobs)
    with open(b.path("lt.c"), "w") as f:
        for c, i in jobs:
            f.write("extern int cl_%s_%d[];\n" % (c, i))
        f.write("void *cl_tables[] = {" + ",".join("cl_%s_%d" % j for j in jobs) + ",0};\n")
    must(["gcc", "-w", "-c", b.path("lt.c"), "-o", b.path("lt.o")])
    lib = [b.path("obj", s.replace("/", "_") + ".o") for s in C_SRC + S_SRC]
    must(["gcc", "-o", exe, b.path("layx.o"), b.path("lt.o")] + objs + lib)
    return exe


def explore(b, pid, tier):
    out = b.path("out-%s-%s.json" % (pid, tier))
    r = run([b.path("layx"), pid, tier, out, str(NCPU)])
    if r.returncode not in (0, 10):
        raise MachineryError("explorer ended with %d: %s" % (r.returncode, r.stderr[-500:]))
    return json.load(open(out))


def check(pid, tier, res):
    b = build()
    compiled = 0
    if pid == "P09":
        r = run([build_conf(b, tier), "conf", tier])
        if r.returncode:
            raise MachineryError("layout model and compilers: " + r.stdout[-400:])
        compiled = int(r.stdout)
    d = explore(b, pid, tier)
    again = None
    for f in d["failures"]:
        alone = all(run([b.path("layx"), "replay", f["case"]]).returncode not in (0, 3) for _ in range(2))
        if not alone:
            again = again if again is not None else explore(b, pid, tier)["failures"]
            if not again:
                raise MachineryError("unconfirmed failure: %s: %s" % (f["case"], f["msg"]))
        res.fail(f["case"], f["msg"], "layx\n%s\n# %s\n" % (f["case"] if alone else "explore " + pid, f["msg"]))
    res.add(d["states"], d["transitions"], d["runs"] + compiled, d["samples"], types=d["types"], cases_enumerated=d["enumerated"], **({"layouts_compared_with_gcc_and_clang": compiled} if compiled else {}))
    res.assumptions.append("type trees and request sequences beyond the stated bounds behave like those within them")


def replay(lines):
    b = build()
    if lines[1].startswith("explore "):
        d = explore(b, lines[1].split()[1], "quick")
        print(json.dumps(d["failures"], indent=1))
        return 1 if d["failures"] else 0
    r = run([b.path("layx"), "replay", lines[1]])
    print(r.stdout, r.returncode)
    return 0 if r.returncode == 0 else 1
