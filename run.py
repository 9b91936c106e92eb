#!/usr/bin/env python3
"""run.py ID quick|thorough : decide one property.   run.py replay FILE : repeat a reported failure.
run.py setup : build everything once."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import *
import sig, lay, mce, th, unw, x32

MODULES = {p: sig for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P16", "P17", "P18", "P20")}
MODULES.update(P09=lay, P10=lay, P11=mce, P14=mce, P15=mce, P21=mce, P12=th, P13=th, P19=unw, P22=x32)
TOOLS = {"mcenv": mce, "mcth": th, "intr": th, "unwx": unw, "layx": lay, "sigx": sig, "sigxconf": sig, "x32": x32, "x32conf": x32}


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        for m in sorted(set(MODULES.values()), key=lambda m: m.__name__):
            m.build()
        return 0
    if a[0] == "replay":
        lines = open(a[1]).read().split("\n")
        return TOOLS[lines[0].split()[0]].replay(lines)
    pid, tier = a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    res = Result(pid, tier)
    MODULES[pid].check(pid, tier, res)
    return res.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except MachineryError as e:
        print("ERROR: %s" % e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
