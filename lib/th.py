"""P12, P13: schedules of several threads (mce/th.c) and interruptions at every instruction (mce/intr.h)."""
import json, os
from common import *
import mce, intr


def build():
    mce.build()
    intr.build()


def schedules(pid, tier, res):
    b = mce.build()
    out, pcs = b.path("th-%s-%s.json" % (pid, tier)), b.path("th-%s-%s.pcs" % (pid, tier))
    r = run([b.path("mcth"), pid, tier, out, str(NCPU), pcs])
    if r.returncode not in (0, 10):
        raise MachineryError("schedule explorer ended with %d: %s" % (r.returncode, r.stderr[-500:]))
    d = json.load(open(out))
    again = None
    for f in d["failures"][:5]:
        if f["msg"].startswith("MACHINERY"):
            raise MachineryError(f["case"] + ": " + f["msg"])
        rr = [run([b.path("mcth"), "replay", f["case"], pcs]) for _ in range(2)]
        alone = all(x.returncode == 10 for x in rr)
        if not alone:
            # what earlier executions in the same process left behind may matter: the whole exploration, twice more
            if again is None:
                again = [run([b.path("mcth"), pid, tier, out + ".again", str(NCPU), pcs + ".again"]).returncode for _ in range(2)]
            if again != [10, 10]:
                raise MachineryError("unconfirmed failure: %s: %s" % (f["case"], f["msg"]))
        res.fail(f["case"], f["msg"], "mcth\n%s\n%s\n# %s\n" % (f["case"] if alone else "explore " + pid, " ".join(d["pcs"]), f["msg"]))
    return d


def check(pid, tier, res):
    d = schedules(pid, tier, res)
    states, trans, traces, samples = d["points"], d["points"], d["runs"], d["samples"]
    more = dict(programs=d["items"], preemption_bound=d["bound"], longest_schedule=d["longest"], racing_accesses=d["racing"], schedules=d["runs"],
                discovery_rounds=d["rounds"], discovery_schedules=d["discovery"])
    if pid == "P13" and not res.failures:
        b, e = intr.explore(tier)
        again = None
        for f in e["failures"]:
            rr = [run([b.path("intr"), "replay", f["case"]]) for _ in range(2)]
            alone = all(x.returncode == 10 for x in rr)
            if not alone and not (again := again or [x for _ in range(2) for x in intr.explore("quick")[1]["failures"]]):
                raise MachineryError("unconfirmed failure: %s: %s" % (f["case"], f["msg"]))
            res.fail(f["case"], f["msg"], "intr\n%s\n# %s\n" % (f["case"] if alone else "explore", f["msg"]))
        if not e["failures"] and e["interrupted"] < 0.9 * e["runs"]:
            raise MachineryError("only %d of %d interruptions took place" % (e["interrupted"], e["runs"]))
        states += e["points"]
        trans += e["interrupted"]
        traces += e["runs"]
        samples = samples + e["samples"]
        more.update(interruption_points=e["points"], interrupted_runs=e["interrupted"])
    res.add(states, trans, traces, samples, **more)
    res.assumptions += ["threads interact only at system calls, locks and racing accesses (found by vector clocks, to a fixpoint); sequentially consistent memory",
                        "behaviours needing more preemptions, operations or threads than the bounds are not explored"]


def replay(lines):
    if lines[0].startswith("intr"):
        if lines[1] == "explore":
            e = intr.explore("quick")[1]
            print(json.dumps(e["failures"], indent=1))
            return 1 if e["failures"] else 0
        b = intr.build()
        r = run([b.path("intr"), "replay", lines[1]])
    else:
        b = mce.build()
        open(b.path("replay.pcs"), "w").write(lines[2].replace(" ", "\n") + "\n")
        if lines[1].startswith("explore"):
            r = run([b.path("mcth"), lines[1].split()[1], "quick", b.path("replay.json"), str(NCPU), b.path("replay.pcs")])
            r.stdout += open(b.path("replay.json")).read()[:3000]
        else:
            r = run([b.path("mcth"), "replay", lines[1], b.path("replay.pcs")])
    print(r.stdout, r.returncode)
    return 0 if r.returncode == 0 else 1
