"""P22: 32-bit x86 calls and closures (i386/), run as freestanding 32-bit programs."""
import json, os
from common import *

X32 = os.path.join(VERIF, "i386")
SRC = ["src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/x86/ffi.c"]
ASM = ["src/x86/sysv.S"]
CT = {"s32": "int", "d": "double", "s64": "long long", "u8": "unsigned char", "s8": "signed char", "f": "float", "ld": "long double", "u16": "unsigned short", "s16": "short",
      "u32": "unsigned", "u64": "unsigned long long", "p": "void*", "v": "void", "cf": "_Complex float", "cd": "_Complex double", "cld": "_Complex long double",
      "c1": "_Complex signed char", "c2": "_Complex short", "c4": "_Complex int", "c8": "_Complex long long"}
ST = {"S1": "unsigned char a;", "S2": "short a;", "S3": "unsigned char a[3];", "S4": "int a;", "S5": "unsigned a; unsigned char b;", "S8": "void *a; int b;",
      "S7": "unsigned short a[3]; unsigned char b;", "Sf": "float a;", "Sd": "double a;", "Sfd": "float a; double b;", "Sld": "long double a;", "SL": "long long a;",
      "S20": "int a; double b; unsigned char c; unsigned short d; float e;"}
CPX = {"cf", "cd", "cld", "c1", "c2", "c4", "c8"}
ARGS = [t for t in list(CT) + list(ST) if t != "v"]
ABI = {"FFI_SYSV": "cdecl", "FFI_STDCALL": "stdcall", "FFI_THISCALL": "thiscall", "FFI_FASTCALL": "fastcall", "FFI_MS_CDECL": "cdecl"}
REG = {"s32", "u8", "s8", "u16", "s16", "u32", "p"}


MEM = set(ST) | {"cd", "cld", "c8"}


def signatures():
    small = ["s32", "d", "s64", "u8", "S3", "f", "ld", "S20"]
    out = [("v", (a,)) for a in ARGS] + [("v", (a, b)) for a in ARGS for b in ARGS] + [("s32", (a, b, c)) for a in small for b in small for c in small]
    out += [(r, l) for r in ARGS + ["v"] for l in ((), ("s32",), ("S8", "s32"), ("u8", "d", "p", "s16", "ld"))]
    return out


def contested(abi, ret, args, cc):
    """Cases on which compilers differ from each other, or the library documents a choice of its own."""
    if abi == "FFI_MS_CDECL" and (ret in ST or ret in ("cd", "cld", "c8")):
        return True
    if abi in ("FFI_THISCALL", "FFI_FASTCALL"):
        # clang has its own idea of where a hidden pointer, complex values and a method without a leading object go
        if cc == "clang" and (ret in MEM or any(a in CPX for a in args) or (abi == "FFI_THISCALL" and args and args[0] not in REG)):
            return True
        wide = False
        for a in args:
            if wide and a in REG:
                return True
            wide = wide or a in ST or a in ("s64", "u64")
    return False


def generate(cc, part, parts):
    t = lambda x: "struct " + x if x in ST else CT[x]
    o = ["typedef unsigned char u8; struct gen { int abi, n; const char *ret, *a[8]; void *callee; void (*caller) (void *fn, u8 (*av)[48], u8 *rv); const char *cc; };",
         "extern u8 gen_got[8][48]; extern int gen_hits; extern u8 *gen_ret;", "#define FFI_NO"]
    o += ["struct %s { %s };" % x for x in ST.items()]
    tab, k = [], 0
    for ai, (abi, conv) in enumerate(ABI.items()):
        for i, (r, a) in enumerate(signatures()):
            if i % parts != part or contested(abi, r, a, cc):
                continue
            k += 1
            at = "__attribute__ ((%s)) " % conv
            par = ", ".join("%s a%d" % (t(x), n) for n, x in enumerate(a)) or "void"
            body = "gen_hits++;" + "".join(" *(%s*) gen_got[%d] = a%d;" % (t(x), n, n) for n, x in enumerate(a)) + ("" if r == "v" else " return *(%s*) gen_ret;" % t(r))
            o.append("static %s%s ce%d (%s) { %s }" % (at, t(r), k, par, body))
            call = "((%s %s(*) (%s)) fn) (%s)" % (t(r), at, ", ".join(t(x) for x in a) or "void", ", ".join("*(%s*) av[%d]" % (t(x), n) for n, x in enumerate(a)))
            o.append("static void ca%d (void *fn, u8 (*av)[48], u8 *rv) { %s%s; }" % (k, "" if r == "v" else "*(%s*) rv = " % t(r), call))
            tab.append('{ %s, %d, "%s", { %s }, ce%d, ca%d, "%s" }' % (abi, len(a), r, ", ".join('"%s"' % x for x in a), k, k, cc))
    o.append("enum { FFI_SYSV = %d, FFI_STDCALL = %d, FFI_THISCALL = %d, FFI_FASTCALL = %d, FFI_MS_CDECL = %d };" % tuple(ABINUM[x] for x in ABI))
    o.append("struct gen gen_%s_%d[] = { %s, { 0 } };" % (cc, part, ",\n".join(tab)))
    return "\n".join(o) + "\n"


ABINUM = {}


def build():
    b = Builder("x32", tree(X32), open(__file__).read())
    if b.ready():
        return b
    b.start()
    os.makedirs(b.path("sys/gnu"), exist_ok=True)
    open(b.path("sys/gnu/stubs-32.h"), "w").close()
    inc = ["-I" + b.path("sys")] + b.incflags() + ["-idirafter", "/usr/include/x86_64-linux-gnu"]
    lib = []

    def one(src):
        o = b.path(src.replace("/", "_") + ".o")
        must(["gcc", "-m32"] + [c for c in CFLAGS if c != "-fexceptions"] + ["-fno-stack-protector", "-U_FORTIFY_SOURCE"] + inc + ["-c", os.path.join(REPO, src), "-o", o])
        return o
    lib = pmap(one, SRC + ASM)
    base = ["-m32", "-w", "-O1", "-ffreestanding", "-fno-pic", "-fno-pie", "-fno-stack-protector", "-fno-builtin"]
    must(["gcc"] + base + ["-fno-strict-aliasing"] + inc + ["-c", X32 + "/x32.c", "-o", b.path("x32.o")])
    must(["gcc", "-m32", "-c", X32 + "/x32.S", "-o", b.path("x32s.o")])
    r = must(["gcc", "-m32", "-w", "-E", "-P", "-include", "stddef.h"] + inc + ["-x", "c", "-"], input="#include <ffi.h>\n").stdout
    body = r[r.index("enum ffi_abi"):]
    body = body[body.index("{") + 1:body.index("}")]
    v = -1
    for e in body.replace("\n", " ").split(","):
        e = e.strip()
        if not e:
            continue
        n, _, x = e.partition("=")
        v = (ABINUM.get(x.strip()) if x.strip() in ABINUM else int(x, 0)) if x.strip() else v + 1
        ABINUM[n.strip()] = v
    jobs = [(c, i) for i in range(4) for c in ("gcc", "clang")]

    def gen(job):
        c, i = job
        src = b.path("g_%s_%d.c" % (c, i))
        open(src, "w").write(generate(c, i, 4).replace("#define FFI_NO\n", ""))
        # the table of conventions must come first
        t = open(src).read().split("\n")
        e = [x for x in t if x.startswith("enum {")]
        t = e + [x for x in t if not x.startswith("enum {")]
        open(src, "w").write("\n".join(t))
        must([c] + base + ["-mno-sse"] * (c == "clang") + ["-c", src, "-o", src[:-2] + ".o"])
        return src[:-2] + ".o"
    gens = pmap(gen, jobs)
    with open(b.path("gt.c"), "w") as f:
        f.write("".join("extern int gen_%s_%d[];\n" % j for j in jobs) + "void *gen_tables[] = {" + ",".join("gen_%s_%d" % j for j in jobs) + ",0};\n")
    must(["gcc"] + base + ["-c", b.path("gt.c"), "-o", b.path("gt.o")])
    must(["gcc", "-m32", "-nostdlib", "-static", "-no-pie", "-Wl,-z,noexecstack", "-o", b.path("x32"), b.path("x32.o"), b.path("x32s.o"), b.path("gt.o")] + gens + lib)
    b.finish()
    return b


def check(pid, tier, res):
    b = build()
    c = run([b.path("x32"), "conf", "x"])
    disagree = None
    for l in c.stdout.split("\n"):
        if l.startswith("M ") and not disagree:
            disagree = "the model disagrees with a compiler: " + l
        if l.startswith("F ") and not disagree:
            res.fail(l[2:].split(" : ")[0], l[2:], "x32conf\n%s\n" % l[2:])
    if not disagree and (c.returncode or not c.stdout.strip().split("\n")[-1].startswith("C ")):
        disagree = "comparison with compiled functions ended with %d: %s" % (c.returncode, c.stdout[-300:])
    n = 4 * NCPU
    outs = pmap(lambda i: run([b.path("x32"), tier, str(i), str(n)]), range(n))
    cases = runs = 0
    samples = []
    for r in outs:
        ls = r.stdout.strip().split("\n")
        d = ls[-1].split()
        if not r.returncode and d and d[0] == "D":
            cases += int(d[1])
            runs += int(d[2])
        elif not disagree:
            disagree = "explorer ended with %d: %s" % (r.returncode, r.stdout[-300:])
        samples += [l[2:] for l in ls if l.startswith("E ")]
        for l in ls:
            if l.startswith("F ") and len(res.failures) < 40:
                case, msg = l[2:].split(" : ", 1)
                rr = [run([b.path("x32"), "replay"] + case.split()) for _ in range(2)]
                if all(x.returncode in (10, 98) for x in rr):
                    res.fail(case, msg, "x32\n%s\n# %s\n" % (case, msg))
                elif not disagree:
                    disagree = "unconfirmed failure: " + l
    if disagree:
        if res.failures:
            return
        raise MachineryError(disagree)
    res.add(cases, runs, runs + int(c.stdout.split()[-1]), samples[:6], signatures=cases, calls_between_library_model_and_compiled_code=int(c.stdout.split()[-1]))
    res.assumptions += ["the 32-bit code runs here only as a freestanding program; memory for closures comes from the harness",
                        "values are drawn from three bit patterns per type; longer lists than enumerated behave like those"]


def replay(lines):
    b = build()
    if lines[0] == "x32conf":
        r = run([b.path("x32"), "conf", "x"])
        print(r.stdout)
        return 1 if "\nF " in "\n" + r.stdout else 0
    r = run([b.path("x32"), "replay"] + lines[1].split())
    print(r.stdout, r.returncode)
    return 0 if r.returncode == 0 else 1
