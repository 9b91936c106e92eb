"""P11, P14, P15, P21: closure memory under a simulated system (mce/)."""
import json, os
from common import *

MCE = os.path.join(VERIF, "mce")
REDIRECT = ("mmap munmap mprotect malloc calloc realloc free open openat close write ftruncate lseek pread read fstat fallocate "
            "posix_fallocate access getenv statfs unlink mkstemp mkostemp memfd_create fopen fclose setmntent endmntent "
            "getline getdelim strdup strndup posix_memalign aligned_alloc pwrite fcntl pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock").split()
ALIAS = {"mmap64": "mmap", "open64": "open", "ftruncate64": "ftruncate", "lseek64": "lseek", "pread64": "pread", "pwrite64": "pwrite", "fcntl64": "fcntl", "__strdup": "strdup", "__strndup": "strndup", "fstat64": "fstat",
         "statfs64": "statfs", "mkstemp64": "mkstemp", "mkostemp64": "mkostemp", "fopen64": "fopen", "fallocate64": "fallocate",
         "posix_fallocate64": "posix_fallocate", "__getdelim": "getdelim", "secure_getenv": "getenv", "__open_2": "open"}


TH_REDIRECT = ["memcpy", "memmove", "memset", "sched_yield", "pthread_once"]


def instrumented(b, cc="gcc", cflags=None, extra=(), name="env"):
    """One relocatable object with the library, its libc calls redirected, its variables in sections of their own."""
    cflags = cflags or [c for c in CFLAGS if c != "-O3"] + ["-O1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector", "-g"]
    objs = b.libffi(cc, cflags, name + "obj")
    for o in objs:
        if "tramp.c" in o:
            must(["objcopy", "--redefine-sym", "ffi_tramp_arch=mc_tramp_arch", o])
    all_o = b.path(name + "all.o")
    must(["ld", "-r", "-o", all_o] + objs)
    syms = set(must(["nm", "-u", all_o]).stdout.split())
    cmd = ["objcopy"]
    for s in list(REDIRECT) + list(ALIAS) + list(extra):
        if s in syms:
            cmd += ["--redefine-sym", "%s=mc_%s" % (s, s)]
    for sec in must(["objdump", "-h", all_o]).stdout.split("\n"):
        f = sec.split()
        if len(f) > 2 and f[0].isdigit() and (f[1] == ".data" or f[1].startswith((".data.rel", ".data."))) and "ro" not in f[1].split("."):
            cmd += ["--rename-section", f[1] + "=mcdata"]
    cmd += ["--set-section-flags", ".bss=alloc,load,data,contents", "--rename-section", ".bss=mcbss,alloc,load,data,contents"]
    must(cmd + [all_o, b.path(name + "lib.o")])
    return b.path(name + "lib.o")


def defsyms():
    return ["-Wl,--defsym=mc_%s=mc_%s" % (s, t) for s, t in ALIAS.items()]


def build():
    b = Builder("mce", tree(MCE))
    if not b.ready():
        b.start()
        lib = instrumented(b)
        must(["gcc", "-O2", "-g", "-w", "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-fno-pie", *b.incflags()[:1], "-c", MCE + "/env.c", "-o", b.path("env.o")])
        must(["gcc", "-no-pie", "-o", b.path("mcenv"), b.path("env.o"), lib, *defsyms(), "-lpthread"])
        th = instrumented(b, cflags=[c for c in CFLAGS if c != "-O3"] + ["-O1", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector", "-g"],
                          extra=TH_REDIRECT, name="th")
        must(["gcc", "-O2", "-g", "-w", "-fno-pie", "-Werror=implicit-function-declaration", *b.incflags()[:1], "-c", MCE + "/th.c", "-o", b.path("thh.o")])
        must(["gcc", "-no-pie", "-o", b.path("mcth"), b.path("thh.o"), th, *defsyms(), "-lpthread"])
        b.finish()
    return b


def explore(b, pid, tier):
    out = b.path("out-%s-%s.json" % (pid, tier))
    r = run([b.path("mcenv"), pid, tier, out, str(NCPU)])
    if r.returncode not in (0, 10):
        raise MachineryError("explorer ended with %d: %s" % (r.returncode, r.stderr[-500:]))
    return json.load(open(out))


def check(pid, tier, res):
    b = build()
    d = explore(b, pid, tier)
    for f in d["failures"][:3]:
        if f["msg"].startswith("MACHINERY"):
            raise MachineryError(f["case"] + ": " + f["msg"])
        rr = [run([b.path("mcenv"), "replay", f["case"], str(d["mask"])]) for _ in range(2)]
        if not all(x.returncode == 10 for x in rr):
            raise MachineryError("unconfirmed failure: %s: %s" % (f["case"], f["msg"]))
        res.fail(f["case"], f["msg"], "mcenv\n%s\n%d\n# %s\n" % (f["case"], d["mask"], f["msg"]))
    res.add(d["states"], d["transitions"], d["runs"], d["samples"], operations=d["ops"], cases_enumerated=d["enumerated"])
    res.assumptions += ["the simulated system answers as Linux does; each of its answers can be produced by a real system",
                        "histories beyond the depth bounds behave like those within them"]


def replay(lines):
    b = build()
    r = run([b.path("mcenv"), "replay", lines[1], lines[2]])
    print(r.stdout, r.returncode)
    return 0 if r.returncode == 0 else 1
