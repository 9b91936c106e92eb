"""P13, interruption part: generates the operations for mce/intr.h."""
import os
from common import *

# return type, argument types
SIGS = [
    ("i32", "i32 i64 i8 i16 i32 i64"),
    ("f64", "f64 f32 f64 f32 f64 f32 f64 f64 f64 f32"),
    ("Sdi", "Sdi f64 S37 f32 i32 i64 Sff i8"),
    ("Sld", "i32 Sld Sld Sld Sld Sld Sld Sld"),
    ("Sff", "Sff Sff i32 Sff"),
    ("Sdd", "Sdd Sll i16 Sdd Slll"),
    ("Sll", "i8 Sll Sll Sll i64 f32"),
    ("Slll", "i64 i64 i64 i64 i64 i64 i64 i64 i64 i64 i64 i64"),
    ("S37", "ptr S3 S37 f64"),
    ("ld", "ld i32 ld SL f64"),
    ("SL", "SL i8"),
    ("i8", "i8 i8 i8 i8 i8 i8 i8 i8 i8"),
    ("f32", "f32"),
    ("S3", "S3 S3 S3"),
    ("i64", " ".join(["i64", "f64"] * 12)),
    ("ptr", ""),
    ("i32", "i32 i16"),
    ("f64", "i64 f64 f32"),
]
PATHS = ["CALL", "CLOS", "CALLCLOS", "GOCALL", "GOCLOS", "RAW", "PREP", "RAWCLOS", "JRAW", "JRAWCLOS", "DYNCLOS"]


def generate():
    out = ['#include "intr.h"\n']
    ops = []
    for wi in range(2):
        for i, (rt, at) in enumerate(SIGS):
            at = at.split()
            if wi and ("ld" in at + [rt] or "SL" in at + [rt]):
                continue
            n = len(ops)
            attr = "__attribute__((ms_abi)) " if wi else ""
            par = ", ".join("%s a%d" % (t, k) for k, t in enumerate(at)) or "void"
            h = "uint64_t h = 77;"
            for k, t in enumerate(at):
                h += " h = hash_%s (h, a%d);" % (t, k)
            o = ["static %s%s fn%d (%s) { %s return make_%s (h); }" % (attr, rt, n, par, h, rt)]
            small = rt in ("i8", "i16", "i32")
            store = "*(ffi_arg*) ret = (ffi_arg) make_%s (h);" % rt if small else "*(%s*) ret = make_%s (h);" % (rt, rt)
            hh = "uint64_t h = 77;" + "".join(" h = hash_%s (h, *(%s*) av[%d]);" % (t, t, k) for k, t in enumerate(at))
            o.append("static void h%d (ffi_cif *c, void *ret, void **av, void *ud) { %s if (ud != (void*) %dul) h ^= 12345; %s }" % (n, hh, 1000 + n, store))
            o.append("static ffi_cif cif%d; static ffi_type *at%d[] = { %s 0 }; static void *code%d; static ffi_closure *cl%d; static ffi_go_closure go%d;" % (n, n, "".join("&FT_%s, " % t for t in at), n, n, n))
            # go closure target: user data arrives as the closure address
            o.append("static void g%d (ffi_cif *c, void *ret, void **av, void *ud) { %s if (ud != (void*) &go%d) h ^= 999; %s }" % (n, hh, n, store))
            raw = not any(t.startswith("S") for t in at)
            java = raw and not rt.startswith("S") and "ld" not in at + [rt]
            o.append("static ffi_closure *dcl%d;" % n)
            if raw:
                o.append("static void *rcode%d; static ffi_raw_closure *rcl%d; static void rh%d (ffi_cif *c, void *ret, ffi_raw *raw, void *ud) { void *av[40]; ffi_raw_to_ptrarray (c, raw, av); h%d (c, ret, av, ud); }" % (n, n, n, n))
            if java:
                o.append("static void *jcode%d; static ffi_java_raw_closure *jcl%d; static void jh%d (ffi_cif *c, void *ret, ffi_java_raw *raw, void *ud) { void *av[40]; ffi_java_raw_to_ptrarray (c, raw, av); h%d (c, ret, av, ud); }" % (n, n, n, n))
            args = "".join("%s a%d = make_%s (mixh (v * 1000 + %d, 5)); " % (t, k, t, k) for k, t in enumerate(at))
            call = ", ".join("a%d" % k for k in range(len(at)))
            av = "void *av[] = { %s0 };" % "".join("&a%d, " % k for k in range(len(at)))
            ft = "%s (%s*) (%s)" % (rt, attr, ", ".join(at) or "void")
            abi = "FFI_GNUW64" if wi else "FFI_DEFAULT_ABI"
            o.append("""static int op%d (int path, int v)
{
  %s%s
  %s want = fn%d (%s); union { ffi_arg w; %s r; char b[64]; } R; memset (&R, 0x5A, sizeof R); uint64_t hw = hash_%s (1, want), hg;
  switch (path)
    {
    case CALL: ffi_call (&cif%d, FFI_FN (fn%d), &R, av); break;
    case CLOS: R.r = ((%s) code%d) (%s); break;
    case CALLCLOS: ffi_call (&cif%d, FFI_FN (code%d), &R, av); break;
    case GOCALL: ffi_call_go (&cif%d, FFI_FN (fn%d), &R, av, (void*) 0x1234); break;
    case GOCLOS: ffi_call_go (&cif%d, FFI_FN (*(void**) &go%d), &R, av, &go%d); break;
    case RAW: { ffi_raw raw[80]; ffi_ptrarray_to_raw (&cif%d, av, raw); ffi_raw_call (&cif%d, FFI_FN (fn%d), &R, raw); } break;
    case DYNCLOS: R.r = ((@FT@) (void*) dcl@N@) (@CALL@); break;
@RAWCASE@@JAVACASE@    case PREP: { ffi_cif c; if (ffi_prep_cif (&c, %s, %d, &FT_%s, at%d) != FFI_OK) return 0; ffi_call (&c, FFI_FN (fn%d), &R, av); } break;
    }
  hg = hash_%s (1, R.r);
  return hg == hw;
}""" % (n, args, av, rt, n, call, rt, rt, n, n, ft, n, call, n, n, n, n, n, n, n, n, n, n, abi, len(at), rt, n, n, rt))
            o[-1] = o[-1].replace("@RAWCASE@", "    case RAWCLOS: R.r = ((@FT@) rcode@N@) (@CALL@); break;\n" if raw else "").replace(
                "@JAVACASE@", "    case JRAWCLOS: R.r = ((@FT@) jcode@N@) (@CALL@); break;\n    case JRAW: { ffi_java_raw raw[80]; ffi_java_ptrarray_to_raw (&cif@N@, av, raw); ffi_java_raw_call (&cif@N@, FFI_FN (fn@N@), &R, raw); } break;\n" if java else "").replace(
                "@FT@", ft).replace("@N@", str(n)).replace("@CALL@", call)
            setup = """  if (ffi_prep_cif (&cif%d, %s, %d, &FT_%s, at%d)) bad_setup ("cif %d"); cl%d = ffi_closure_alloc (sizeof (ffi_closure), &code%d);
  if (!cl%d || ffi_prep_closure_loc (cl%d, &cif%d, h%d, (void*) %dul, code%d)) bad_setup ("closure %d");""" % (n, abi, len(at), rt, n, n, n, n, n, n, n, n, 1000 + n, n, n)
            setup += "\n  if (ffi_prep_go_closure (&go%d, &cif%d, g%d)) bad_setup (\"go\");" % (n, n, n)
            setup += "\n  dcl%d = dyn_mem (); if (ffi_prep_closure_loc (dcl%d, &cif%d, h%d, (void*) %dul, dcl%d)) bad_setup (\"dyn\");" % (n, n, n, n, 1000 + n, n)
            for k, cond in (("raw", raw), ("java_raw", java)):
                if cond:
                    v = k[0]
                    setup += "\n  %scl%d = ffi_closure_alloc (sizeof (ffi_%s_closure), &%scode%d); if (!%scl%d || ffi_prep_%s_closure_loc (%scl%d, &cif%d, %sh%d, (void*) %dul, %scode%d)) bad_setup (\"%s\");" % (v, n, k, v, n, v, n, k, v, n, n, v, n, 1000 + n, v, n, k)
            paths = ["CALL", "CLOS", "CALLCLOS", "GOCALL", "GOCLOS", "PREP"]
            paths.append("DYNCLOS")
            if raw:
                paths += ["RAW", "RAWCLOS"]
            if java:
                paths += ["JRAW", "JRAWCLOS"]
            ops.append((o, setup, paths, "%s%s(%s)" % ("ms_abi " if wi else "", rt, ",".join(at))))
            out += o
    out.append("#define NOPS %d" % len(ops))
    out.append("static const char *op_name[] = { %s };" % ", ".join('"%s"' % x[3] for x in ops))
    out.append("static void setup (void)\n{\n%s\n}" % "\n".join(x[1] for x in ops))
    out.append("static int has_path (int op, int p) { static const unsigned m[] = { %s }; return m[op] >> p & 1; }" % ", ".join(str(sum(1 << PATHS.index(p) for p in x[2])) for x in ops))
    out.append("static int (*const opf[]) (int, int) = { %s };" % ", ".join("op%d" % i for i in range(len(ops))))
    out.append("static int run_op (int op, int p, int v) { return opf[op] (p, v); }")
    sy = len(SIGS)
    inner = [(2, "CALL"), (14, "CLOS"), (5, "CALLCLOS"), (9, "CALL"), (sy + 2, "CLOS"), (sy + 6, "CALL"), (1, "GOCLOS"), (7, "GOCALL"), (0, "RAW"), (0, "RAWCLOS"), (12, "JRAWCLOS"), (14, "DYNCLOS")]
    out.append("#define NINNER %d" % len(inner))
    out.append("static const int INNER[][2] = { %s };" % ", ".join("{ %d, %s }" % x for x in inner))
    out.append('#include "intr_main.h"')
    return "\n".join(out) + "\n"


def build():
    src = generate()
    b = Builder("intr", tree(os.path.join(VERIF, "mce")), src)
    if not b.ready():
        b.start()
        objs = b.libffi("gcc", CFLAGS, "iobj")
        open(b.path("ops.c"), "w").write(src)
        must(["gcc", "-O1", "-g", "-w", "-fno-pie", "-fno-stack-protector", "-I" + os.path.join(VERIF, "mce"), *b.incflags()[:1], "-c", b.path("ops.c"), "-o", b.path("ops.o")])
        must(["objcopy", "--rename-section", ".text=hartext", b.path("ops.o")])
        must(["gcc", "-no-pie", "-Wl,-z,now", "-o", b.path("intr"), b.path("ops.o")] + objs + ["-lpthread"])
        b.finish()
    return b


def explore(tier):
    b = build()
    out = b.path("out-%s.json" % tier)
    r = run([b.path("intr"), tier, out, str(NCPU)])
    if r.returncode not in (0, 10):
        raise MachineryError("interruption explorer ended with %d: %s" % (r.returncode, r.stderr[-500:]))
    return b, json.load(open(out))
