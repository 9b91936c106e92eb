/* Unwinding explorer (P19).
   step: an operation of the library is single-stepped; at every instruction inside the library the unwinder walks the
         stack, and must find the caller's frame with the stack pointer and preserved registers the caller really has.
   throw: all nestings of calls and closures up to a depth, with exceptions thrown, caught, rethrown at every level.  */
#include <ffi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <string>
#include <vector>
#include <exception>
#include <csetjmp>
#include <unistd.h>
#include <ucontext.h>
#include <unwind.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef uint64_t u64;
extern "C" char __start_libtext[], __stop_libtext[];
struct enter { void *fn, *a[6]; u64 rsp; };
extern "C" { u64 unw_enter (struct enter *); void unw_ret (void); }
/* calls e->fn (a[0..4]) with all preserved registers holding known values */
__asm__ (R"(
	.text
	.globl unw_enter, unw_ret
	.type unw_enter,@function
unw_enter:
	.cfi_startproc
	push %rbx
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset rbx,0
	push %rbp
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset rbp,0
	push %r12
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset r12,0
	push %r13
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset r13,0
	push %r14
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset r14,0
	push %r15
	.cfi_adjust_cfa_offset 8
	.cfi_rel_offset r15,0
	sub $4104,%rsp
	.cfi_adjust_cfa_offset 4104
	mov %rsp,56(%rdi)
	mov %rdi,%rax
	mov 0(%rax),%r11
	mov 8(%rax),%rdi
	mov 16(%rax),%rsi
	mov 24(%rax),%rdx
	mov 32(%rax),%rcx
	mov 40(%rax),%r8
	mov 48(%rax),%r9
	mov %r9,%r10
	mov $0x1b1b1b1b1b1b0b0b,%rbx
	mov $0x2b2b2b2b2b2b0b0b,%rbp
	mov $0x3c3c3c3c3c3c0c0c,%r12
	mov $0x4d4d4d4d4d4d0d0d,%r13
	mov $0x5e5e5e5e5e5e0e0e,%r14
	mov $0x6f6f6f6f6f6f0f0f,%r15
	xor %eax,%eax
	mov $8,%al
	call *%r11
unw_ret:
	xor %eax,%eax
	mov $0x1b1b1b1b1b1b0b0b,%r11
	sub %r11,%rbx
	or %rbx,%rax
	mov $0x2b2b2b2b2b2b0b0b,%r11
	sub %r11,%rbp
	or %rbp,%rax
	mov $0x3c3c3c3c3c3c0c0c,%r11
	sub %r11,%r12
	or %r12,%rax
	mov $0x4d4d4d4d4d4d0d0d,%r11
	sub %r11,%r13
	or %r13,%rax
	mov $0x5e5e5e5e5e5e0e0e,%r11
	sub %r11,%r14
	or %r14,%rax
	mov $0x6f6f6f6f6f6f0f0f,%r11
	sub %r11,%r15
	or %r15,%rax
	add $4104,%rsp
	.cfi_adjust_cfa_offset -4104
	pop %r15
	.cfi_adjust_cfa_offset -8
	.cfi_restore r15
	pop %r14
	.cfi_adjust_cfa_offset -8
	.cfi_restore r14
	pop %r13
	.cfi_adjust_cfa_offset -8
	.cfi_restore r13
	pop %r12
	.cfi_adjust_cfa_offset -8
	.cfi_restore r12
	pop %rbp
	.cfi_adjust_cfa_offset -8
	.cfi_restore rbp
	pop %rbx
	.cfi_adjust_cfa_offset -8
	.cfi_restore rbx
	ret
	.cfi_endproc
	.size unw_enter,.-unw_enter
)");
static const u64 WANT[6] = { 0x1b1b1b1b1b1b0b0b, 0x2b2b2b2b2b2b0b0b, 0x3c3c3c3c3c3c0c0c, 0x4d4d4d4d4d4d0d0d, 0x5e5e5e5e5e5e0e0e, 0x6f6f6f6f6f6f0f0f };
static const int DW[6] = { 3, 6, 12, 13, 14, 15 };
static const char *const RN[6] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };

/* ---- types ---- */
static ffi_type *e_ll[] = { &ffi_type_sint64, &ffi_type_sint64, 0 }, *e_dd[] = { &ffi_type_double, &ffi_type_double, 0 }, *e_ld[] = { &ffi_type_sint64, &ffi_type_double, 0 }, *e_m[] = { &ffi_type_sint64, &ffi_type_sint64, &ffi_type_sint64, &ffi_type_sint64, &ffi_type_sint64, 0 }, *e_3[] = { &ffi_type_schar, &ffi_type_schar, &ffi_type_schar, 0 }, *e_big[66];
static ffi_type t_ll = { 0, 0, FFI_TYPE_STRUCT, e_ll }, t_dd = { 0, 0, FFI_TYPE_STRUCT, e_dd }, t_ld = { 0, 0, FFI_TYPE_STRUCT, e_ld }, t_m = { 0, 0, FFI_TYPE_STRUCT, e_m }, t_3 = { 0, 0, FFI_TYPE_STRUCT, e_3 }, t_big = { 0, 0, FFI_TYPE_STRUCT, e_big };
static ffi_type *type_of (char c)
{
  switch (c)
    {
    case 'v': return &ffi_type_void; case 'i': return &ffi_type_sint64; case 'b': return &ffi_type_sint8; case 'w': return &ffi_type_uint32; case 'd': return &ffi_type_double; case 'f': return &ffi_type_float;
    case 'l': return &ffi_type_longdouble; case 'p': return &t_ll; case 'q': return &t_dd; case 'x': return &t_ld; case 'm': return &t_m; case '3': return &t_3; case 'B': return &t_big;
    case 'c': return &ffi_type_complex_double; case 'C': return &ffi_type_complex_longdouble; case 'y': return &ffi_type_complex_float; case 'P': return &ffi_type_pointer;
    }
  abort ();
}
enum { CALL, CLOS, CALLCLOS, GOCALL, GOCLOS, RAW, NPATH };
static const char *const PN[] = { "call", "closure", "call of a closure", "go call", "go closure", "raw call" };
struct sig
{
  std::string rt, at; int abi; ffi_cif cif; ffi_type *args[80]; void *av[80]; ffi_raw raw[600]; ffi_closure *cl; void *code; ffi_go_closure go; bool ok;
  ~sig () { if (ok && cl) ffi_closure_free (cl); }
};
static char zero[4096] __attribute__((aligned (64))), result[8][4096] __attribute__((aligned (64)));
static int level; struct enter ent[8]; static int nent;
static void step_level (void);
static void handler (ffi_cif *c, void *ret, void **av, void *ud);
static void go_handler (ffi_cif *c, void *ret, void **av, void *ud) { handler (c, ret, av, 0); }
extern "C" { static void callee_sysv (void) { step_level (); } static __attribute__((ms_abi)) void callee_ms (void) { step_level (); } }
static void *callee (struct sig *s) { return s->abi == FFI_UNIX64 ? (void*) callee_sysv : (void*) callee_ms; }
static bool make_sig (struct sig *s, const std::string &rt, const std::string &at, int abi)
{
  s->rt = rt; s->at = at; s->abi = abi; s->ok = false; s->cl = 0;
  for (size_t i = 0; i < at.size (); i++) { s->args[i] = type_of (at[i]); s->av[i] = zero; }
  memset (s->raw, 0, sizeof s->raw);
  if (ffi_prep_cif (&s->cif, (ffi_abi) abi, at.size (), type_of (rt[0]), s->args) != FFI_OK) return false;
  bool cx = false; for (char c : at) if (strchr ("cCy", c)) cx = true;
  if (!cx) ffi_ptrarray_to_raw (&s->cif, s->av, s->raw);
  s->cl = (ffi_closure*) ffi_closure_alloc (sizeof (ffi_closure), &s->code); if (!s->cl) return false;
  if (ffi_prep_closure_loc (s->cl, &s->cif, handler, 0, s->code) != FFI_OK || ffi_prep_go_closure (&s->go, &s->cif, go_handler) != FFI_OK) return false;
  return s->ok = true;
}
/* go closures take their own address in a register the shim also sets (r10) */
static u64 use (struct sig *s, int path)
{
  struct enter &e = ent[nent]; void *res = result[nent & 7]; u64 r;
  switch (path)
    {
    case CALL: e = { (void*) ffi_call, { &s->cif, callee (s), res, s->av, 0, 0 }, 0 }; break;
    case CALLCLOS: e = { (void*) ffi_call, { &s->cif, s->code, res, s->av, 0, 0 }, 0 }; break;
    case GOCALL: e = { (void*) ffi_call_go, { &s->cif, callee (s), res, s->av, zero, 0 }, 0 }; break;
    case RAW: e = { (void*) ffi_raw_call, { &s->cif, callee (s), res, s->raw, 0, 0 }, 0 }; break;
    case CLOS: e = { s->code, { res, res, res, res, res, res }, 0 }; break;
    case GOCLOS: e = { *(void**) &s->go, { res, res, res, res, res, &s->go }, 0 }; break;
    default: abort ();
    }
  struct out { ~out () { nent--; __asm__ volatile ("fninit"); } } o; nent++;
  r = unw_enter (&e);
  return r;
}
static bool has (struct sig *s, int path) { if (path == RAW) { if (s->abi != FFI_UNIX64) return false; for (char c : s->at) if (strchr ("cCy", c)) return false; } return true; }

/* ---- stepping ---- */
static volatile int stepping; static char why[300]; static volatile int bad; static u64 points; static volatile u64 insns; static int mode;
static int seen_ents; 
static _Unwind_Reason_Code frame (struct _Unwind_Context *c, void *a)
{
  int &n = *(int*) a;
  if ((char*) _Unwind_GetIP (c) != (char*) unw_ret) return _URC_NO_REASON;
  if (n < 0) return _URC_END_OF_STACK;
  struct enter &e = ent[n];
  if (_Unwind_GetCFA (c) != e.rsp && !bad) { bad = 1; snprintf (why, 300, "the unwinder finds a stack pointer %ld bytes off", (long) (_Unwind_GetCFA (c) - e.rsp)); }
  for (int i = 0; i < 6 && !bad; i++) if (_Unwind_GetGR (c, DW[i]) != WANT[i]) { bad = 1; snprintf (why, 300, "the unwinder finds the caller's %s as %lx", RN[i], (long) _Unwind_GetGR (c, DW[i])); }
  n--;
  return _URC_NO_REASON;
}
static u64 bad_pc, nofde;
struct dwarf_eh_bases { void *t, *d, *f; };
extern "C" const void *_Unwind_Find_FDE (void *, struct dwarf_eh_bases *);
static void on_trap (int, siginfo_t *, void *uc_)
{
  ucontext_t *uc = (ucontext_t*) uc_; char *rip = (char*) uc->uc_mcontext.gregs[REG_RIP];
  if (!stepping) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100l; return; }
  if (rip < __start_libtext || rip >= __stop_libtext || bad) return;
  /* inside the library: the frames to be found */
  struct dwarf_eh_bases eb; if (!_Unwind_Find_FDE (rip, &eb)) { nofde++; return; }        /* stubs: no frame starts or ends there */
  int n = nent - 1; points++;
  _Unwind_Backtrace (frame, &n);
  if (!bad && n != -1) { bad = 1; snprintf (why, 300, "the unwinder does not reach the caller (%d of %d frames)", nent - 1 - n, nent); }
  if (bad) { bad_pc = (u64) rip; if (getenv ("UNWALL")) { fprintf (stderr, "%lx %s\n", (u64) rip, why); bad = 0; } }
}
static sigjmp_buf crash_env; static volatile int armed;
static void on_crash (int sig) { if (armed) siglongjmp (crash_env, sig); _exit (11); }
static inline __attribute__((always_inline)) void tf_on (void) { __asm__ volatile ("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static inline __attribute__((always_inline)) void tf_off (void) { __asm__ volatile ("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }

/* ---- nested programs with exceptions ----
   A program is a list of levels; level l uses signature sg[l] by path pt[l].  The innermost code throws.  catch_at: bit l
   set: the code run inside level l (that called level l+1) catches; what it then does: 0 return normally, 1 rethrow, 2 throw another.  */
struct Tag { int v; std::string s; };
struct prog { int n; struct sig *sg[5]; int path[5]; int catches, then[6]; };
static prog P; static int dtors, caught, wrong; static volatile u64 seedv = 0x1234567;
struct D { int id; D (int i) : id (i) {} ~D () { dtors |= 1 << id; } };
static __attribute__((noinline)) void deeper (int l);
static void level_body (int l)
{
  /* l levels have been entered; values kept in preserved registers across the call below */
  u64 s = seedv + l; u64 a = s * 3, b = s * 5, c = s * 7, d = s * 11, e = s * 13, f = s * 17;
  __asm__ volatile ("" : "+r" (a), "+r" (b), "+r" (c), "+r" (d), "+r" (e), "+r" (f));
  D obj (l);
  if (l == P.n) { if (P.then[5]) return; throw Tag { l, "innermost exception, long enough not to be stored inline" }; }
  if (P.catches >> l & 1)
    {
      try { D inner (l + 8); deeper (l); }
      catch (const Tag &t)
        {
          caught |= 1 << l; if (t.v < l || t.s.size () < 20) wrong |= 1;
          if (a != s * 3 || b != s * 5 || c != s * 7 || d != s * 11 || e != s * 13 || f != s * 17) wrong |= 2;
          for (int k = l + 1; k <= P.n; k++) if (!(dtors >> k & 1)) wrong |= 4;
          if (!(dtors >> (l + 8) & 1)) wrong |= 4;
          if (P.then[l] == 1) throw;
          if (P.then[l] == 2) throw Tag { l, "another exception, also long enough for the heap" };
        }
    }
  else deeper (l);
  if (a != s * 3 || b != s * 5 || c != s * 7 || d != s * 11 || e != s * 13 || f != s * 17) wrong |= 8;
}
static void deeper (int l) { if (use (P.sg[l], P.path[l])) wrong |= 16; }
static void step_level (void) { if (mode) { int l = ++level; struct L { ~L () { level--; } } x; level_body (l); } }
static void handler (ffi_cif *c, void *ret, void **, void *) { if (c->rtype->size && c->rtype->type != FFI_TYPE_VOID) memset (ret, 0, c->rtype->size < 8 ? 8 : c->rtype->size); step_level (); }
static const char *aftermath (void);
static const char *run_prog (void)
{
  static char m[100]; int sg; bool out = false; level = 0; nent = 0; dtors = caught = wrong = 0; mode = 1;
  if ((sg = sigsetjmp (crash_env, 1))) { armed = 0; snprintf (m, 100, "ended by signal %d", sg); return m; }
  armed = 1;
  try { level_body (0); } catch (const Tag &t) { out = true; } catch (...) { wrong |= 32; }
  armed = 0; mode = 0;
  /* what must have happened */
  int wc = 0, fl = 1; bool ex = !P.then[5];
  for (int l = P.n - 1; l >= 0; l--) if (ex && (P.catches >> l & 1)) { wc |= 1 << l; if (!P.then[l]) ex = false; }
  (void) fl;
  if (out != ex) return out ? "an exception escapes" : "the exception does not arrive";
  if (caught != wc) return "a handler on the way was not run, or run without reason";
  for (int k = 0; k <= P.n; k++) if (!(dtors >> k & 1)) return "a destructor was not run";
  if (level || nent) return "frames were not left in order";
  if (wrong & 10) return "values kept across the call differ after the exception";
  if (wrong & 4) return "a destructor had not been run when the exception was handled";
  if (wrong & 16) return "preserved registers differ after the call";
  if (wrong) return "another exception arrives";
  const char *am = 0;
  if (!P.then[5])
    {
      if ((sg = sigsetjmp (crash_env, 1))) { armed = 0; snprintf (m, 100, "a later call ended by signal %d", sg); return m; }
      armed = 1; am = aftermath (); armed = 0;
    }
  return am;
}

/* ---- after an exception: ordinary calls and closures still deliver their arguments and results ---- */
struct ll_ { long x, y; }; struct ld_ { long x; double y; }; struct m_ { long v[5]; };
extern "C" {
static ld_ af_ld (long a, double b, ll_ c, long d, long e, long f, m_ g, float h) { return { a + 3 * c.x + 5 * c.y + 7 * d + 11 * e + 13 * f + 17 * g.v[0] + 19 * g.v[4], b * 2 + h }; }
static m_ af_m (long a, double b, ll_ c, long d, long e, long f, m_ g, float h) { return { { a, c.x + c.y, d + e + f, g.v[1] + g.v[3], (long) (b + h) } }; }
static __attribute__((ms_abi)) long af_ms (long a, double b, ll_ *c, long d, long e, long f, m_ *g, float h) { return a + 3 * c->x + 5 * c->y + 7 * d + 11 * e + 13 * f + 17 * g->v[2] + (long) (b * 8 + h); }
}
static void af_handler (ffi_cif *c, void *ret, void **av, void *ud)
{
  long a = *(long*) av[0], d = *(long*) av[3], e = *(long*) av[4], f = *(long*) av[5]; double b = *(double*) av[1]; ll_ cc = *(ll_*) av[2]; m_ g = *(m_*) av[6]; float h = *(float*) av[7];
  if (ud == (void*) 1) *(ld_*) ret = af_ld (a, b, cc, d, e, f, g, h); else if (ud == (void*) 2) *(m_*) ret = af_m (a, b, cc, d, e, f, g, h); else *(long*) ret = af_ms (a, b, &cc, d, e, f, &g, h);
}
static const char *aftermath (void)
{
  static ffi_type *at[] = { &ffi_type_sint64, &ffi_type_double, &t_ll, &ffi_type_sint64, &ffi_type_sint64, &ffi_type_sint64, &t_m, &ffi_type_float };
  static ffi_cif cf[3]; static ffi_closure *cl[3]; static void *co[3]; static bool up; static long k;
  static void (*const fn[3]) (void) = { (void (*) (void)) af_ld, (void (*) (void)) af_m, (void (*) (void)) af_ms };
  if (!up)
    {
      ffi_type *rt[] = { &t_ld, &t_m, &ffi_type_sint64 };
      for (int i = 0; i < 3; i++)
        if (ffi_prep_cif (&cf[i], i == 2 ? FFI_GNUW64 : FFI_UNIX64, 8, rt[i], at) != FFI_OK || !(cl[i] = (ffi_closure*) ffi_closure_alloc (sizeof (ffi_closure), &co[i])) || ffi_prep_closure_loc (cl[i], &cf[i], af_handler, (void*)(long) (i + 1), co[i]) != FFI_OK) return "preparing a closure fails";
      up = true;
    }
  k++;
  long a = k * 77, d = -k, e = k << 33, f = 9 - k; double b = k / 4.0; ll_ c = { k ^ 0x55, ~k }; m_ g = { { k + 1, k + 2, k + 3, k + 4, k * 5 } }; float h = 3.5f;
  void *av[] = { &a, &b, &c, &d, &e, &f, &g, &h };
  ld_ w0 = af_ld (a, b, c, d, e, f, g, h), r0; m_ w1 = af_m (a, b, c, d, e, f, g, h), r1; long w2 = af_ms (a, b, &c, d, e, f, &g, h), r2;
  for (int q = 0; q < 3; q++)
    {
      memset (&r0, 0x11, sizeof r0); memset (&r1, 0x11, sizeof r1); r2 = 0x1111;
      if (q == 0) { ffi_call (&cf[0], fn[0], &r0, av); ffi_call (&cf[1], fn[1], &r1, av); ffi_call (&cf[2], fn[2], &r2, av); }
      else if (q == 1) { ffi_call_go (&cf[0], fn[0], &r0, av, zero); ffi_call (&cf[1], (void (*) (void)) co[1], &r1, av); ffi_call_go (&cf[2], fn[2], &r2, av, zero); }
      else
        {
          r0 = ((ld_ (*) (long, double, ll_, long, long, long, m_, float)) co[0]) (a, b, c, d, e, f, g, h); r1 = ((m_ (*) (long, double, ll_, long, long, long, m_, float)) co[1]) (a, b, c, d, e, f, g, h);
          r2 = ((__attribute__((ms_abi)) long (*) (long, double, ll_ *, long, long, long, m_ *, float)) co[2]) (a, b, &c, d, e, f, &g, h);
        }
      if (memcmp (&r0, &w0, sizeof r0) || memcmp (&r1, &w1, sizeof r1) || r2 != w2) return q == 2 ? "a later closure invocation delivers another result" : "a later call delivers another result";
    }
  return 0;
}
struct shard { u64 sigs, points, runs, steps; int nfail; char fail[3][400]; char sample[200], cur[260]; volatile int done; };
static struct shard *sh; static std::string lists (int) ;
static const char *ABIN (int a) { return a == FFI_UNIX64 ? "unix64" : a == FFI_WIN64 ? "win64" : "gnuw64"; }
static void fail (const char *fmt, ...) __attribute__((format (printf, 1, 2)));
#include <cstdarg>
static void fail (const char *fmt, ...) { if (sh->nfail >= 3) return; va_list ap; va_start (ap, fmt); vsnprintf (sh->fail[sh->nfail++], 400, fmt, ap); va_end (ap); }
static const char *step_one (struct sig *s, int path)
{
  int sg; nent = 0; level = 0; mode = 0; bad = 0; insns = 0;
  if ((sg = sigsetjmp (crash_env, 1))) { armed = 0; stepping = 0; tf_off (); snprintf (why, 300, "ended by signal %d", sg); return why; }
  armed = 1; stepping = 1; tf_on (); u64 r = use (s, path); tf_off (); stepping = 0; armed = 0;
  if (bad) return why;
  return r ? "preserved registers differ after the call" : 0;
}
static void on_term () { if (armed) siglongjmp (crash_env, 99); _exit (11); }
static std::vector<std::string> all_lists (const char *al, int len)
{
  std::vector<std::string> v { "" }; size_t from = 0;
  for (int l = 0; l < len; l++) { size_t to = v.size (); for (size_t i = from; i < to; i++) for (const char *p = al; *p; p++) v.push_back (v[i] + *p); from = to; }
  return v;
}
struct job { std::string rt, at; int abi; };
int main (int argc, char **argv)
{
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction (SIGTRAP, &sa, 0);
  static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_flags = 0; ss.ss_size = sizeof alt; sigaltstack (&ss, 0);
  memset (&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM }) sigaction (s, &sa, 0);
  std::set_terminate (on_term);
  for (int i = 0; i < 65; i++) e_big[i] = &ffi_type_sint64;
  int abis[] = { FFI_UNIX64, FFI_WIN64, FFI_GNUW64 };
  if (argc > 2 && !strcmp (argv[1], "replay"))
    {
      char rt[4], at[100]; int abi, path; const char *m = 0; alarm (30);
      if (sscanf (argv[2], "step %3s %99s %d %d", rt, at, &abi, &path) == 4)
        { sig s; if (!make_sig (&s, rt, !strcmp (at, "-") ? "" : at, abi)) return 3; m = step_one (&s, path); if (m) printf ("at %lx: ", bad_pc - (u64) __start_libtext); }
      else
        {
          int n, c, th, in, k = 0, o; sscanf (argv[2], "throw %d %d %d %d%n", &n, &c, &th, &in, &o); const char *p = argv[2] + o; static sig s[5];
          P.n = n; P.catches = c; for (int l = 0; l < 5; l++) P.then[l] = th / (l == 0 ? 1 : l == 1 ? 3 : l == 2 ? 9 : l == 3 ? 27 : 81) % 3; P.then[5] = in;
          for (; k < n; k++) { if (sscanf (p, " %3s %99s %d %d%n", rt, at, &abi, &path, &o) != 4 || !make_sig (&s[k], rt, !strcmp (at, "-") ? "" : at, abi)) return 3; p += o; P.sg[k] = &s[k]; P.path[k] = path; }
          for (int r = 0; r < 5000 && !m; r++) m = run_prog ();      /* again and again: what an exception left behind may add up */
        }
      printf ("%s\n", m ? m : "quiet"); fflush (0); _exit (m ? 10 : 0);
    }
  bool thorough = !strcmp (argv[1], "thorough"); int W = argc > 3 ? atoi (argv[3]) : 8;
  /* signatures */
  std::vector<job> jobs; const char *rets = "vibwdflpqxm3BcCyP";
  for (int a : abis) for (auto &l : all_lists ("idpml", thorough ? 4 : 2)) for (const char *r = rets; *r; r++) if (thorough || l.size () < 2 || strchr ("vlpm", *r)) jobs.push_back ({ std::string (1, *r), l, a });
  for (int a : abis) for (int n = 3; n <= (thorough ? 70 : 24); n++) for (const char *pat : { "i", "d", "l", "m", "p", "q", "id", "i3", "wlx", "cB" }) { std::string l; for (int i = 0; i < n; i++) l += pat[i % strlen (pat)]; for (const char *r : { "v", "m", "x", "l" }) if (thorough || (n + *r) % 3 == 0) jobs.push_back ({ r, l, a }); }
  struct shard *shs = (struct shard*) mmap (0, sizeof *shs * 64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); pid_t pid[64]; fflush (0);
  for (int w = 0; w < W; w++) if (!(pid[w] = fork ()))
    {
      sh = &shs[w];
      for (size_t j = w; j < jobs.size () && sh->nfail < 3; j += W)
        {
          snprintf (sh->cur, 260, "step %s %s %d %d", jobs[j].rt.c_str (), jobs[j].at.size () ? jobs[j].at.c_str () : "-", jobs[j].abi, 0);
          static sig *s; s = new sig; if (!make_sig (s, jobs[j].rt, jobs[j].at, jobs[j].abi)) { s->ok = false; delete s; continue; }
          sh->sigs++;
          for (int p = 0; p < NPATH && sh->nfail < 3; p++) if (has (s, p))
            {
              alarm (20); u64 p0 = points; const char *m = step_one (s, p); sh->points += points - p0; sh->steps++;
              if (m) fail ("step %s %s %d %d\n%s, %s -> %s, %s: at %lx: %s", s->rt.c_str (), s->at.size () ? s->at.c_str () : "-", s->abi, p, ABIN (s->abi), s->at.c_str (), s->rt.c_str (), PN[p], bad_pc - (u64) __start_libtext, m);
              else if (sh->steps == 50) snprintf (sh->sample, 200, "step %s %s %d %d", s->rt.c_str (), s->at.size () ? s->at.c_str () : "-", s->abi, p);
            }
          delete s;
        }
      /* nested programs */
      struct rep { const char *rt, *at; int abi; };
      static const rep reps[] = { { "v", "", FFI_UNIX64 }, { "x", "idididididmidlp", FFI_UNIX64 }, { "m", "iiiiiiiiiii", FFI_UNIX64 }, { "l", "d", FFI_UNIX64 }, { "v", "idmlp", FFI_GNUW64 }, { "m", "iiiiiiidd", FFI_WIN64 }, { "i", "B", FFI_UNIX64 } };
      int NR = sizeof reps / sizeof *reps, NU = 0; static sig rs[10]; struct { sig *s; int path; } U[64];
      for (int i = 0; i < NR; i++) if (make_sig (&rs[i], reps[i].rt, reps[i].at, reps[i].abi)) for (int p = 0; p < NPATH; p++) if (has (&rs[i], p) && (p != RAW || i == 1)) U[NU].s = &rs[i], U[NU++].path = p;
      u64 idx = 0; int depth = thorough ? 4 : 3;
      for (int n = 1; n <= depth && sh->nfail < 3; n++)
        {
          u64 tot = 1; for (int l = 0; l < n; l++) tot *= n == depth && n > 2 ? (NU + 2) / 3 : NU;     /* the deepest level with every third use, rotating */
          for (u64 c = 0; c < tot && sh->nfail < 3; c++)
            {
              if (idx++ % W != (u64) w) continue;
              u64 x = c; P.n = n; for (int l = 0; l < n; l++) { int B = n == depth && n > 2 ? (NU + 2) / 3 : NU, u = n == depth && n > 2 ? (int) (x % B) * 3 + (l % 3) : (int) (x % B); if (u >= NU) u = NU - 1; P.sg[l] = U[u].s; P.path[l] = U[u].path; x /= B; }
              for (int in = 0; in < 2; in++) for (int cs = 0; cs < 1 << n; cs++)
                {
                  if (in && cs) continue;
                  int T = 1; for (int l = 0; l < n; l++) T *= 3;
                  for (int th = 0; th < T && sh->nfail < 3; th++)
                    {
                      bool skip = false; int y = th; for (int l = 0; l < 5; l++) { P.then[l] = y % 3; if (P.then[l] && !(cs >> l & 1)) skip = true; y /= 3; }
                      if (skip) continue;
                      P.catches = cs; P.then[5] = in; alarm (20); char *b = sh->cur; { int o = sprintf (b, "throw %d %d %d %d", n, cs, th, in); for (int l = 0; l < n; l++) o += sprintf (b + o, " %s %s %d %d", P.sg[l]->rt.c_str (), P.sg[l]->at.size () ? P.sg[l]->at.c_str () : "-", P.sg[l]->abi, P.path[l]); }
                      const char *m = run_prog (); sh->runs++;
                      if (m) { fail ("%s\nexception through %d levels: %s", b, n, m); }
                    }
                }
            }
        }
      sh->done = 1; _exit (0);
    }
  for (int w = 0; w < W; w++) { int st; waitpid (pid[w], &st, 0); if (!shs[w].done) { if (!*shs[w].cur || shs[w].nfail >= 3 || (WIFEXITED (st) && WEXITSTATUS (st) != 11)) { fprintf (stderr, "worker died %x\n", st); return 3; } snprintf (shs[w].fail[shs[w].nfail++], 400, "%s\nthe process ends", shs[w].cur); } }
  FILE *o = fopen (argv[2], "w"); const char *sep = ""; u64 pts = 0, runs = 0, steps = 0, sg = 0, fails = 0; fprintf (o, "{\"failures\":[");
  for (int w = 0; w < W; w++) { pts += shs[w].points; runs += shs[w].runs; steps += shs[w].steps; sg += shs[w].sigs; for (int i = 0; i < shs[w].nfail; i++) { fails++; char *n = strchr (shs[w].fail[i], '\n'); *n = 0; fprintf (o, "%s{\"case\":\"%s\",\"msg\":\"%s\"}", sep, shs[w].fail[i], n + 1); sep = ",\n"; } }
  fprintf (o, "],\"samples\":[\"%s\",\"%s\"],\"points\":%lu,\"runs\":%lu,\"stepped\":%lu,\"signatures\":%lu,\"fails\":%lu}\n", shs[0].sample, shs[1].sample, pts, runs, steps, sg, fails); fclose (o);
  return fails ? 10 : 0;
}
