"""P19: unwinding through the library's frames (unw/unwx.cc)."""
import json, os
from common import *

UNW = os.path.join(VERIF, "unw")


def build():
    b = Builder("unw", tree(UNW))
    if not b.ready():
        b.start()
        objs = b.libffi("gcc", CFLAGS, "uobj")
        for o in objs:
            cmd = ["objcopy"]
            for l in must(["objdump", "-h", o]).stdout.split("\n"):
                f = l.split()
                if len(f) > 2 and f[0].isdigit() and (f[1] == ".text" or f[1].startswith(".text.")):
                    cmd += ["--rename-section", f[1] + "=libtext"]
            must(cmd + [o])
        must(["g++", "-std=c++17", "-O2", "-g", "-w", "-fno-pie", "-no-pie", *b.incflags()[:1], UNW + "/unwx.cc", "-o", b.path("unwx")] + objs + ["-lpthread"])
        b.finish()
    return b


def check(pid, tier, res):
    b = build()
    out = b.path("out-%s.json" % tier)
    r = run([b.path("unwx"), tier, out, str(NCPU)])
    if r.returncode not in (0, 10):
        raise MachineryError("unwinding explorer ended with %d: %s" % (r.returncode, r.stderr[-500:]))
    d = json.load(open(out))
    again = None
    for f in d["failures"][:5]:
        rr = [run([b.path("unwx"), "replay", f["case"]]) for _ in range(2)]
        alone = all(x.returncode in (10, 11) or x.returncode < 0 for x in rr)
        if not alone:
            # what earlier programs in the same process left behind may matter: the whole exploration, twice more
            if again is None:
                again = [run([b.path("unwx"), tier, out + ".again", str(NCPU)]).returncode for _ in range(2)]
            if again != [10, 10]:
                raise MachineryError("unconfirmed failure: %s: %s" % (f["case"], f["msg"]))
        res.fail(f["case"], f["msg"], "unwx\n%s\n# %s\n" % (f["case"] if alone else "explore", f["msg"]))
    res.add(d["points"], d["points"] + d["runs"], d["stepped"] + d["runs"], d["samples"], signatures=d["signatures"], instructions_unwound=d["points"],
            operations_stepped=d["stepped"], exception_programs=d["runs"])
    res.assumptions += ["libgcc's unwinder and g++'s frames are right", "trampolines are generated or copied code without unwind information; the walk starts behind them"]


def replay(lines):
    b = build()
    r = run([b.path("unwx"), "quick", b.path("replay.json"), str(NCPU)] if lines[1] == "explore" else [b.path("unwx"), "replay", lines[1]])
    if lines[1] == "explore":
        print(open(b.path("replay.json")).read()[:2000])
    print(r.stdout, r.returncode)
    return 0 if r.returncode == 0 else 1
