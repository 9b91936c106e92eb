/* Interleaving explorer: P12, and the interleaving part of P13.
   The library is compiled with -fsanitize=thread against the run-time below:
   every memory access of the library is reported here.  Threads are fibers;
   they can be switched at every lock operation, system call, call-back and at
   every access to memory for which some explored schedule showed two
   conflicting, unordered accesses (found by vector clocks).  Schedules are
   enumerated exhaustively up to a bound on the number of preemptions; the set
   of racing accesses is grown until it is stable, and until then the
   exploration is repeated.  */
#define _GNU_SOURCE
#define MC_THREADS
#include <setjmp.h>

static void sched_point (const char *);
#include "os.h"
#include <sys/wait.h>
#include <time.h>

/* ------------------------------------------------------------------ fibers */
#define NT 3
#define STK (256 * 1024)
struct fiber { void *sp; char *stack; int state; void *wait; int id; u32 clk[NT]; long acc; };
static struct fiber T[NT]; static void *main_sp; static int cur = -1, nthreads;
enum { S_DEAD, S_READY, S_BLOCKED, S_DONE };
__asm__ (".text\n.globl fib_switch\nfib_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
extern void fib_switch (void **save, void *to);
static sigjmp_buf crash_env; static volatile int crash_armed;
static void thread_body (int t);
static void fib_entry (void)
{
  thread_body (cur);
  T[cur].state = S_DONE;
  fib_switch (&T[cur].sp, main_sp);
  abort ();
}
static void fib_make (int t)
{
  if (!T[t].stack) T[t].stack = mmap (0, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  void **sp = (void**)(T[t].stack + STK - 64);
  *--sp = 0; *--sp = (void*)fib_entry; for (int i = 0; i < 6; i++) *--sp = 0;
  T[t].sp = sp; T[t].state = S_READY; T[t].id = t; T[t].wait = NULL; T[t].acc = 0;
}
static void yield_ (void) { int t = cur; fib_switch (&T[t].sp, main_sp); }

/* ------------------------------------------------------ schedule and points */
#define MAXP 20000
static struct { u8 enabled, cur, curok; } PT[MAXP]; static int npt;
static struct { int at; u8 to; } DEV[8]; static int ndv;
static const char *pt_name[MAXP];
static void sched_point (const char *who)
{
  if (cur < 0) return;
  if (npt < MAXP) pt_name[npt] = who;
  yield_ ();
}

/* ------------------------------------------------------------ race detector */
#define MAXR 4096
struct racy { volatile int n; u64 pc[MAXR]; }; static struct racy *R; static u8 racy_local[1 << 20];
static int is_racy (u64 pc) { u64 k = pc & ((1 << 20) - 1); return racy_local[k]; }
static void racy_load (void) { memset (racy_local, 0, sizeof racy_local); for (int i = 0; i < R->n && i < MAXR; i++) racy_local[R->pc[i] & ((1 << 20) - 1)] = 1; }
static void racy_add (u64 pc)
{
  if (is_racy (pc)) return;
  for (int i = 0; i < R->n && i < MAXR; i++) if (R->pc[i] == pc) return;
  int i = __atomic_fetch_add (&R->n, 1, __ATOMIC_SEQ_CST); if (i < MAXR) R->pc[i] = pc; else violate (V_MACH, "too many racing accesses");
}
#define SHN (1u << 20)
struct shd { u64 key; u32 run; u8 wt; u32 wc; u64 wpc; u32 rc[NT]; u64 rpc[NT]; };
static struct shd *SH; static u32 runid; static u64 nacc, nraces;
static struct shd *shadow (u64 g)
{
  u64 k = (g * 0x9E3779B97F4A7C15ull) >> 44;
  for (int n = 0; n < 5000; n++)
    {
      struct shd *s = &SH[(k + n) & (SHN - 1)];
      if (s->run != runid) { memset (s, 0, sizeof *s); s->run = runid; s->key = g; s->wt = 255; return s; }
      if (s->key == g) return s;
    }
  violate (V_MACH, "shadow full"); return SH;
}
static inline int own_stack (u64 a) { u64 b = (u64)T[cur].stack; return a >= b && a < b + STK; }
static void access_ (u64 a, u64 n, int wr, u64 pc)
{
  if (cur < 0 || own_stack (a) || n == 0) return;
  struct fiber *f = &T[cur];
  if (++f->acc > 40000000) { violate (V_ALL, "thread does not finish"); siglongjmp (crash_env, 1001); }
  if (is_racy (pc)) sched_point (wr ? "racing write" : "racing read");
  if (a >= ABASE && a < ABASE + NPAGE * PG && (!PGS[(a - ABASE) / PG].live || (wr && !(PGS[(a - ABASE) / PG].prot & PROT_WRITE)))) { violate (V_ALL, "thread %d %s memory at %p, which is not mapped", cur, wr ? "writes" : "reads", (void*)a); siglongjmp (crash_env, 1001); }
  for (u64 g = a >> 3; g <= (a + n - 1) >> 3; g++)
    {
      struct shd *s = shadow (g); nacc++;
      if (s->wt != 255 && s->wt != cur && s->wc > f->clk[s->wt]) { nraces++; racy_add (pc); racy_add (s->wpc); }
      if (wr) for (int t = 0; t < nthreads; t++) if (t != cur && s->rc[t] > f->clk[t]) { nraces++; racy_add (pc); racy_add (s->rpc[t]); }
      if (wr) { s->wt = cur; s->wc = f->clk[cur]; s->wpc = pc; } else { s->rc[cur] = f->clk[cur]; s->rpc[cur] = pc; }
    }
}
static void forget (u64 a, u64 n) { (void) a; (void) n; }
#define RA ((u64)__builtin_return_address (0))
void __tsan_init (void) {} void __tsan_func_entry (void *p) {} void __tsan_func_exit (void) {}
#define RW(n) void __tsan_read##n (void *p) { access_ ((u64)p, n, 0, RA); } void __tsan_write##n (void *p) { access_ ((u64)p, n, 1, RA); } \
  void __tsan_unaligned_read##n (void *p) { access_ ((u64)p, n, 0, RA); } void __tsan_unaligned_write##n (void *p) { access_ ((u64)p, n, 1, RA); } \
  void __tsan_volatile_read##n (void *p) { access_ ((u64)p, n, 0, RA); } void __tsan_volatile_write##n (void *p) { access_ ((u64)p, n, 1, RA); } \
  void __tsan_unaligned_volatile_read##n (void *p) { access_ ((u64)p, n, 0, RA); } void __tsan_unaligned_volatile_write##n (void *p) { access_ ((u64)p, n, 1, RA); } \
  void __tsan_read##n##_pc (void *p, void *pc) { access_ ((u64)p, n, 0, RA); } void __tsan_write##n##_pc (void *p, void *pc) { access_ ((u64)p, n, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range (void *p, u64 n) { access_ ((u64)p, n, 0, RA); }
void __tsan_write_range (void *p, u64 n) { access_ ((u64)p, n, 1, RA); }
void __tsan_vptr_update (void **p, void *v) {} void __tsan_vptr_read (void **p) {}
void *mc_memcpy (void *d, const void *s, size_t n) { access_ ((u64)s, n, 0, RA); access_ ((u64)d, n, 1, RA); return memmove (d, s, n); }
void *mc_memmove (void *d, const void *s, size_t n) { access_ ((u64)s, n, 0, RA); access_ ((u64)d, n, 1, RA); return memmove (d, s, n); }
void *mc_memset (void *d, int c, size_t n) { access_ ((u64)d, n, 1, RA); return memset (d, c, n); }
/* locks and atomic operations carry clocks */
struct syn { void *a; int owner, cnt; u32 clk[NT]; };
static struct syn SY[64]; static int nsy;
static struct syn *syn_of (void *a) { for (int i = 0; i < nsy; i++) if (SY[i].a == a) return &SY[i]; if (nsy == 64) { violate (V_MACH, "locks"); nsy = 0; } SY[nsy] = (struct syn){ a, -1 }; return &SY[nsy++]; }
static void acquire (struct syn *s) { for (int t = 0; t < NT; t++) if (s->clk[t] > T[cur].clk[t]) T[cur].clk[t] = s->clk[t]; }
static void release (struct syn *s) { for (int t = 0; t < NT; t++) if (T[cur].clk[t] > s->clk[t]) s->clk[t] = T[cur].clk[t]; T[cur].clk[cur]++; }
static int spin;
static void atomic_pt (void *a) { if (cur < 0) return; if (++spin > 400) { spin = 0; T[cur].state = S_BLOCKED; T[cur].wait = (void*)1; } sched_point ("atomic"); struct syn *s = syn_of (a); acquire (s); release (s); }
#define AT(n, t) \
  t __tsan_atomic##n##_load (const volatile t *p, int mo) { atomic_pt ((void*)p); return *p; } \
  void __tsan_atomic##n##_store (volatile t *p, t v, int mo) { atomic_pt ((void*)p); *p = v; } \
  t __tsan_atomic##n##_exchange (volatile t *p, t v, int mo) { atomic_pt ((void*)p); t o = *p; *p = v; return o; } \
  t __tsan_atomic##n##_fetch_add (volatile t *p, t v, int mo) { atomic_pt ((void*)p); t o = *p; *p = o + v; return o; } \
  t __tsan_atomic##n##_fetch_sub (volatile t *p, t v, int mo) { atomic_pt ((void*)p); t o = *p; *p = o - v; return o; } \
  t __tsan_atomic##n##_fetch_or (volatile t *p, t v, int mo) { atomic_pt ((void*)p); t o = *p; *p = o | v; return o; } \
  t __tsan_atomic##n##_fetch_and (volatile t *p, t v, int mo) { atomic_pt ((void*)p); t o = *p; *p = o & v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong (volatile t *p, t *e, t v, int mo, int f) { atomic_pt ((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak (volatile t *p, t *e, t v, int mo, int f) { atomic_pt ((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  t __tsan_atomic##n##_compare_exchange_val (volatile t *p, t e, t v, int mo, int f) { atomic_pt ((void*)p); t o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence (int mo) {} void __tsan_atomic_signal_fence (int mo) {}
int mc_sched_yield (void) { if (cur >= 0) { T[cur].state = S_BLOCKED; T[cur].wait = (void*)1; } sched_point ("yield"); return 0; }

int mc_pthread_mutex_init (pthread_mutex_t *m, const void *a) { struct syn *s = syn_of (m); s->owner = -1; s->cnt = 0; return 0; }
int mc_pthread_mutex_destroy (pthread_mutex_t *m) { return 0; }
static int main_held;
int mc_pthread_mutex_lock (pthread_mutex_t *m)
{
  struct syn *s = syn_of (m);
  if (cur < 0) { if (s->owner != -1) { violate (V_ALL, "deadlock: a lock is still held, or is taken twice"); siglongjmp (crash_env, 1000); } s->owner = 99; main_held++; return 0; }
  sched_point ("lock");
  while (s->owner != -1) { T[cur].state = S_BLOCKED; T[cur].wait = s; yield_ (); }
  s->owner = cur; acquire (s); return 0;
}
int mc_pthread_mutex_trylock (pthread_mutex_t *m)
{
  struct syn *s = syn_of (m); if (cur >= 0) sched_point ("trylock"); if (s->owner != -1) return EBUSY;
  if (cur >= 0) { s->owner = cur; acquire (s); } else { s->owner = 99; main_held++; } return 0;
}
int mc_pthread_mutex_unlock (pthread_mutex_t *m)
{
  struct syn *s = syn_of (m);
  if (s->owner != (cur < 0 ? 99 : cur)) { violate (V_ALL, "releases a lock it does not hold"); return 0; }
  if (cur >= 0) release (s); else main_held--;
  s->owner = -1;
  for (int t = 0; t < nthreads; t++) if (T[t].state == S_BLOCKED && T[t].wait == s) T[t].state = S_READY;
  if (cur >= 0) sched_point ("unlock");
  return 0;
}
int mc_pthread_once (pthread_once_t *o, void (*fn) (void))
{
  struct syn *s = syn_of (o); if (cur >= 0) sched_point ("once");
  while (s->cnt == 1) { T[cur].state = S_BLOCKED; T[cur].wait = s; yield_ (); }
  if (!s->cnt) { s->cnt = 1; fn (); s->cnt = 2; if (cur >= 0) release (s); for (int t = 0; t < nthreads; t++) if (T[t].state == S_BLOCKED && T[t].wait == s) T[t].state = S_READY; }
  if (cur >= 0) acquire (s);
  return 0;
}

/* ---------------------------------------------------------------- workload */
extern void *ffi_data_to_code_pointer (void *);
extern void *ffi_tramp_arch (size_t *, size_t *) __attribute__((weak));
static int real_ntramp;
void *mc_tramp_arch (size_t *sz, size_t *map)
{ void *r = ffi_tramp_arch (sz, map); real_ntramp = *map / *sz; if (E.ntramp && *map / E.ntramp >= *sz) *sz = *map / E.ntramp / *sz * *sz; return r; }
struct lv { void *p, *code; size_t size; long ud; int live, owner; };
#define MAXL 64
static struct lv L[MAXL]; static int nl; static long next_ud;
struct got { int n; long ud; long arg; ffi_cif *cif; };
static struct got G[NT + 1];
static ffi_cif CIF; static ffi_type *AT1[1] = { &ffi_type_sint };
/* a shared description with aggregates, floating point and memory arguments */
struct S3 { double d; int i; }; struct S7 { char c[40]; };
static ffi_type *S3E[] = { &ffi_type_double, &ffi_type_sint, 0 }, *S7E[41]; static ffi_type S3T = { 0, 0, FFI_TYPE_STRUCT, S3E }, S7T = { 0, 0, FFI_TYPE_STRUCT, S7E };
static ffi_cif CIF2, CIF3, CIFRAW; static ffi_type *AT2[8];
static ffi_closure *SHC[3]; static void *SHCODE[3];       /* closures used by all threads */
static void handler (ffi_cif *c, void *ret, void **av, void *ud)
{
  struct got *g = &G[cur < 0 ? NT : cur]; g->n++; g->ud = (long)ud; g->arg = *(int*)av[0]; g->cif = c;
  sched_point ("handler"); *(ffi_arg*)ret = *(int*)av[0] * 3 + 1;
}
static u64 pat (int t, int i) { return 0x0101010101010101ull * (t + 1) + i * 0x1000003ull; }
static struct S3 mix (struct S3 a, double b, struct S7 c, float d, int e, long f, struct S3 g, char h)
{
  sched_point ("callee");
  struct S3 r; r.d = a.d + b * 2 + d * 3 + g.d * 5; r.i = a.i + e * 7 + (int)f * 11 + g.i * 13 + h * 17; for (int i = 0; i < 40; i++) r.i += c.c[i] * (i + 1);
  return r;
}
static struct S7 big (struct S3 a, double b, struct S7 c, float d, int e, long f, struct S3 g, char h)
{ struct S3 r = mix (a, b, c, d, e, f, g, h); for (int i = 0; i < 8; i++) c.c[i] ^= ((char*)&r.d)[i]; c.c[9] ^= r.i; return c; }
static void mix_handler (ffi_cif *c, void *ret, void **v, void *ud)
{ sched_point ("handler"); if (ud != (void*)0x77) violate (V_ALL, "shared closure: wrong user pointer"); *(struct S3*)ret = mix (*(struct S3*)v[0], *(double*)v[1], *(struct S7*)v[2], *(float*)v[3], *(int*)v[4], *(long*)v[5], *(struct S3*)v[6], *(char*)v[7]); sched_point ("handler"); }
static void big_handler (ffi_cif *c, void *ret, void **v, void *ud)
{ sched_point ("handler"); if (ud != (void*)0x78) violate (V_ALL, "shared closure: wrong user pointer"); *(struct S7*)ret = big (*(struct S3*)v[0], *(double*)v[1], *(struct S7*)v[2], *(float*)v[3], *(int*)v[4], *(long*)v[5], *(struct S3*)v[6], *(char*)v[7]); sched_point ("handler"); }

#define VC (V_P11 | V_P14)
static int op_alloc (int t, size_t size)
{
  void *code = (void*)0x1234, *p;
  p = ffi_closure_alloc (size, &code);
  if (!p) { violate (V_ALL, "thread %d: allocation of %zu bytes fails although nothing is refused", t, size); return -1; }
  for (int i = 0; i < nl; i++) if (L[i].live)
    {
      if ((u64)p < (u64)L[i].p + L[i].size && (u64)L[i].p < (u64)p + size) { violate (V_ALL, "thread %d was given closure memory %p, which overlaps the live closure %p of thread %d", t, p, L[i].p, L[i].owner); return -1; }
      if (L[i].code == code) { violate (V_ALL, "thread %d was given code address %p, which a live closure of thread %d has", t, code, L[i].owner); return -1; }
    }
  int k = -1; for (int i = 0; i < nl; i++) if (!L[i].live) { k = i; break; }
  if (k < 0) { if (nl == MAXL) { violate (V_MACH, "too many closures"); return -1; } k = nl++; }
  L[k] = (struct lv){ p, code, size, ++next_ud * 8 + t, 1, t };
  if (ffi_prep_closure_loc (p, &CIF, handler, (void*)L[k].ud, code) != FFI_OK) violate (V_ALL, "prep refused");
  return k;
}
static void op_check (int t, int k)
{
  struct lv *l = &L[k]; void *c = ffi_data_to_code_pointer (l->p);
  if (c != l->code) { violate (V_ALL, "thread %d: data-to-code lookup gives %p, allocation gave %p", t, c, l->code); return; }
  u64 a = (u64)l->code; if (a < ABASE || a >= ABASE + NPAGE * PG || !PGS[(a - ABASE) / PG].live || !(PGS[(a - ABASE) / PG].prot & PROT_EXEC)) { violate (V_ALL, "thread %d: code address %p is not executable", t, l->code); return; }
  struct got *g = &G[t < 0 ? NT : t]; g->n = 0; int arg = 1000 + k, r = ((int (*) (int))l->code) (arg);
  if (g->n != 1 || g->ud != l->ud || g->arg != arg || g->cif != &CIF || r != arg * 3 + 1) violate (V_ALL, "thread %d: its handler ran %d times with user pointer %ld (own: %ld), argument %ld, result %d", t, g->n, g->ud, l->ud, g->arg, r);
}
static void op_free (int t, int k) { struct lv l = L[k]; L[k].live = 0; ffi_closure_free (l.p); (void) l; }
static int oldest (int t) { int b = -1; for (int i = 0; i < nl; i++) if (L[i].live && L[i].owner == t && (b < 0 || L[i].ud < L[b].ud)) b = i; return b; }
static int newest (int t) { int b = -1; for (int i = 0; i < nl; i++) if (L[i].live && L[i].owner == t && (b < 0 || L[i].ud > L[b].ud)) b = i; return b; }
static void op_call (int t, int n, int what)
{
  struct S3 a = { 1.5 + t + n, 5 + 3 * t + n }, g = { 0.25 * (t + 1), -7 * t - n }; double b = 2.25 * (t + 2) + n; struct S7 c; for (int i = 0; i < 40; i++) c.c[i] = (char)(i * (t + 3) + n); float d = 0.5f + t; int e = 100 * t + n; long f = 1234567 * (t + 1); char h = (char)(t * 3 + n);
  void *av[8] = { &a, &b, &c, &d, &e, &f, &g, &h };
  int cs = cur; cur = -1; struct S3 want3 = mix (a, b, c, d, e, f, g, h); struct S7 want7 = big (a, b, c, d, e, f, g, h); cur = cs;
  union { struct S3 s3; struct S7 s7; char raw[64]; } r, before; memset (&r, 0xA5, sizeof r); before = r;
  switch (what)
    {
    case 0: ffi_call (&CIF2, FFI_FN (mix), &r, av); break;
    case 1: ffi_call (&CIF3, FFI_FN (big), &r, av); break;
    case 2: r.s3 = ((struct S3 (*) (struct S3, double, struct S7, float, int, long, struct S3, char))SHCODE[0]) (a, b, c, d, e, f, g, h); break;
    case 3: r.s7 = ((struct S7 (*) (struct S3, double, struct S7, float, int, long, struct S3, char))SHCODE[1]) (a, b, c, d, e, f, g, h); break;
    case 4: ffi_call (&CIF3, FFI_FN (SHCODE[1]), &r, av); break;
    case 5: { ffi_arg raw[64]; ffi_ptrarray_to_raw (&CIF2, av, (ffi_raw*)raw); ffi_raw_call (&CIF2, FFI_FN (mix), &r, (ffi_raw*)raw); } break;
    case 6: { ffi_cif c6; if (ffi_prep_cif (&c6, FFI_DEFAULT_ABI, 8, &S3T, AT2)) violate (V_ALL, "prep"); ffi_call (&c6, FFI_FN (mix), &r, av); } break;
    }
  int big_ = what == 1 || what == 3 || what == 4;
  if (big_ ? memcmp (&r, &want7, sizeof want7) : r.s3.d != want3.d || r.s3.i != want3.i) violate (V_P21, "thread %d: call %d delivered another result", t, what);
}

/* ---------------------------------------------------------- one execution */
struct item { int kind, fast, np; struct env env; int pre; char prog[NT][12]; int n; };
static struct item *IT; static int nit, cap_it;
static struct item *I;
static const size_t SZ[] = { sizeof (ffi_closure), 5000, 70000, 2500000 };
static void thread_body (int t)
{
  for (char *p = I->prog[t]; *p && !vio; p++)
    {
      sched_point ("operation");
      switch (*p)
        {
        case 'a': op_alloc (t, SZ[0]); break; case 'A': op_alloc (t, SZ[1]); break; case 'B': op_alloc (t, SZ[2]); break; case 'C': op_alloc (t, SZ[3]); break;
        case 'f': { int k = oldest (t); if (k >= 0) op_free (t, k); } break;
        case 'g': { int k = newest (t); if (k >= 0) op_free (t, k); } break;
        case 'c': { int k = newest (t); if (k >= 0) op_check (t, k); } break;
        case 'o': { int k = oldest (t); if (k >= 0) op_check (t, k); } break;
        case 'p': { int k = newest (t); if (k >= 0) { L[k].ud += 80000; if (ffi_prep_closure_loc (L[k].p, &CIF, handler, (void*)L[k].ud, L[k].code)) violate (V_ALL, "prep"); op_check (t, k); } } break;
        case '0': case '1': case '2': case '3': case '4': case '5': case '6': op_call (t, p - I->prog[t], *p - '0'); break;
        }
    }
}
static void prefix (int pre)
{
  /* who owns what at the start: threads take turns */
  switch (pre)
    {
    case 0: break;                                                       /* first use in the process */
    case 1: op_alloc (0, SZ[0]); break;
    case 2: op_alloc (0, SZ[0]); op_alloc (1, SZ[0]); break;              /* one table of two entries, full */
    case 3: for (int i = 0; i < 3; i++) op_alloc (i & 1, SZ[0]); break;
    case 4: for (int i = 0; i < 4; i++) op_alloc (i & 1, SZ[0]); break;   /* two full tables */
    case 5: for (int i = 0; i < 4; i++) op_alloc (i & 1, SZ[0]); op_free (0, 0); op_free (1, 1); break;
    case 6: op_alloc (0, SZ[2]); op_alloc (1, SZ[2]); break;              /* several heap segments */
    case 7: op_alloc (0, SZ[3]); op_alloc (1, SZ[1]); break;              /* freeing the first trims the heap */
    case 8: op_alloc (0, SZ[2]); op_alloc (1, SZ[3]); op_alloc (0, SZ[0]); op_alloc (1, SZ[2]); break;
    case 9: for (int i = 0; i < 6; i++) op_alloc (i % 3, SZ[0]); break;
    }
}
static u64 nsw;
static int enabled_mask (void) { int m = 0; for (int t = 0; t < nthreads; t++) if (T[t].state == S_READY) m |= 1 << t; return m; }
static int schedule (void)
{
  int di = 0, last = -1;
  npt = 0;
  for (;;)
    {
      int en = enabled_mask ();
      if (!en) { for (int t = 0; t < nthreads; t++) if (T[t].state == S_BLOCKED && T[t].wait == (void*)1) { T[t].state = S_READY; en |= 1 << t; } }
      if (!en) break;
      if (npt >= MAXP) { violate (V_ALL, "schedule does not end"); return 1; }
      int curok = last >= 0 && (en >> last & 1), pick;
      if (curok) pick = last; else { pick = last < 0 ? 0 : last; for (int k = 0; k < NT; k++) { int t = (pick + k) % NT; if (en >> t & 1) { pick = t; break; } } }
      PT[npt].enabled = en; PT[npt].cur = pick; PT[npt].curok = curok;
      if (di < ndv && DEV[di].at == npt) { pick = DEV[di].to; di++; if (!(en >> pick & 1)) { violate (V_MACH, "schedule does not fit"); return 1; } }
      npt++; if (pick != last) nsw++;
      for (int t = 0; t < nthreads; t++) if (t != pick && T[t].state == S_BLOCKED && T[t].wait == (void*)1) T[t].state = S_READY;
      last = pick; cur = pick; spin = pick == last ? spin : 0;
      fib_switch (&main_sp, T[pick].sp);
      cur = -1;
      if (vio) return 1;
    }
  for (int t = 0; t < nthreads; t++) if (T[t].state != S_DONE) { violate (V_ALL, "deadlock: thread %d waits for a lock and nobody can run", t); return 1; }
  return 0;
}
static void shared_setup (void)
{
  for (int i = 0; i < 40; i++) S7E[i] = &ffi_type_schar; S7E[40] = 0;
  AT2[0] = AT2[6] = &S3T; AT2[1] = &ffi_type_double; AT2[2] = &S7T; AT2[3] = &ffi_type_float; AT2[4] = &ffi_type_sint; AT2[5] = &ffi_type_slong; AT2[7] = &ffi_type_schar;
  if (ffi_prep_cif (&CIF, FFI_DEFAULT_ABI, 1, &ffi_type_sint, AT1) || ffi_prep_cif (&CIF2, FFI_DEFAULT_ABI, 8, &S3T, AT2) || ffi_prep_cif (&CIF3, FFI_DEFAULT_ABI, 8, &S7T, AT2)) { fprintf (stderr, "prep_cif\n"); exit (3); }
}
static char *snap0; static u64 lib_image (void) { u64 h = 1; h = hmem (h, __start_mcdata, __stop_mcdata - __start_mcdata); h = hmem (h, __start_mcbss, __stop_mcbss - __start_mcbss); for (size_t i = 0; i < NPAGE; i++) if (PGS[i].live && (PGS[i].prot & PROT_WRITE)) h = hmem (h, (void*)(ABASE + i * PG), PG); for (int i = 0; i < NSLOTS; i++) if (BL[i].live) h = hmem (h, (void*)(BBASE + (u64)i * SLOT), BL[i].size); return h; }
static void finish (void)
{
  if (!vio) dead_check ();
  /* afterwards, single-threaded: everything still works, and nothing is lost */
  for (int i = 0; i < nl && !vio; i++) if (L[i].live) op_check (-1, i);
  for (int t = 0; t < nsy && !vio; t++) if (SY[t].owner != -1) violate (V_ALL, "a lock is still held at the end");
  int n0 = nl, mine[16], nm = 0;
  for (int i = 0; i < 7 && !vio && I->kind == 0; i++) { int k = op_alloc (-1, SZ[0]); if (k >= 0) mine[nm++] = k; }
  for (int i = 0; i < nl && !vio; i++) if (L[i].live) op_check (-1, i);
  (void) n0;
  for (int i = 0; i < nl && !vio; i++) if (L[i].live) op_free (-1, i);
  if (I->kind == 1) for (int i = 0; i < 2 && !vio; i++) ffi_closure_free (SHC[i]);
  int nt = 0, nf = 0; for (size_t i = 0; i < NPAGE; i++) if (PGS[i].live && (PGS[i].prot & PROT_EXEC) && !(PGS[i].prot & PROT_WRITE) && PGS[i].file && !PGS[i].shared) nt++;
  for (int i = 1; i < NFILE; i++) if (F[i].used) nf++;
  if (!vio && nt > 2) violate (V_ALL, "%d trampoline tables are kept although no closure is live", nt);
  if (!vio && nf > 2) violate (V_ALL, "%d descriptors are kept", nf);
  if (!vio && nname_live) violate (V_ALL, "a temporary file's name is left");
  if (!vio && nblk_live > 2 * nt) violate (V_ALL, "%d blocks are kept for %d tables", nblk_live, nt);
}
static void execute (struct item *it)
{
  int sg;
  I = it; E = it->env; nthreads = it->n;
  os_reset (); NPAGE = it->np; os_mode (it->fast); memset (L, 0, sizeof (struct lv) * nl); nl = 0; next_ud = 100; nsy = 0; main_held = 0; runid++; cur = -1; u64 image = 0; spin = 0;
  for (int t = 0; t < NT; t++) for (int u = 0; u < NT; u++) T[t].clk[u] = u == t;
  if (!(sg = sigsetjmp (crash_env, 0)))
    {
      crash_armed = 1;
      if (it->kind == 1)
        {
          for (int i = 0; i < 2; i++) SHC[i] = ffi_closure_alloc (sizeof (ffi_closure), &SHCODE[i]);
          if (!SHC[0] || !SHC[1] || ffi_prep_closure_loc (SHC[0], &CIF2, mix_handler, (void*)0x77, SHCODE[0]) || ffi_prep_closure_loc (SHC[1], &CIF3, big_handler, (void*)0x78, SHCODE[1])) violate (V_MACH, "closures");
        }
      prefix (it->pre);
      if (it->kind == 1 && it->pre == 0) image = lib_image ();
      for (int t = 0; t < nthreads; t++) fib_make (t);
      if (!vio) schedule ();
      cur = -1;
      if (!vio && image && image != lib_image ()) violate (V_P21, "something of the calls survives in the library's memory");
      if (!vio) finish ();
      crash_armed = 0;
    }
  else
    {
      crash_armed = 0;
      if (sg != 1000 && sg != 1001) violate (V_ALL, sg == SIGALRM ? "an operation does not return" : "crash, signal %d, in thread %d", sg, cur);
      cur = -1;
    }
}
static void on_crash (int sig, siginfo_t *si, void *uc)
{
  if (sig == SIGALRM) { static u32 seen; alarm (25); if (seen != runid || !crash_armed) { seen = runid; return; } }
  if (!crash_armed) { fprintf (stderr, "harness crash, signal %d at %p\n", sig, si->si_addr); _exit (3); }
  siglongjmp (crash_env, sig);
}

/* ------------------------------------------------------------- exploration */
struct shard { u64 runs, points, pts_max; int nfail; char fail[3][1400]; char sample[2][400]; int nsample; volatile int done; u64 fails, sw; char cur[600]; };
static struct shard *sh, *shards; static int w, W = 8, bound; static u64 *stopf;
static void item_text (char *b, struct item *it)
{
  int o = sprintf (b, "th %d %d %d env %d %d %d %d %d %d", it->kind, it->pre, it->n, it->env.maps, it->env.selinux, it->env.pax, it->env.rwx, it->env.place, it->env.ntramp);
  for (int i = 0; i < NCAND; i++) o += sprintf (b + o, " %d", it->env.cand[i]);
  o += sprintf (b + o, " prog"); for (int t = 0; t < it->n; t++) o += sprintf (b + o, " %s", *it->prog[t] ? it->prog[t] : "-");
}
static void report (struct item *it)
{
  sh->runs++; sh->points += npt; if ((u64)npt > sh->pts_max) sh->pts_max = npt;
  if (!vio && !(sh->nsample < 2 && sh->runs % 997 == 5)) return;
  char b[700]; item_text (b, it); int o = strlen (b); o += sprintf (b + o, " sched"); for (int i = 0; i < ndv; i++) o += sprintf (b + o, " %d %d", DEV[i].at, DEV[i].to);
  if (vio) { if (sh->nfail < 3) snprintf (sh->fail[sh->nfail++], 1400, "%s\n%s%s", b, vio & V_MACH ? "MACHINERY " : "", vmsg); sh->fails++; __atomic_fetch_add (stopf, 1, __ATOMIC_SEQ_CST); }
  else snprintf (sh->sample[sh->nsample++], 400, "%s", b);
}
static void dfs (struct item *it, int from, int left)
{
  if (*stopf > 6) return;
  execute (it); report (it);
  if (vio) return;
  int n = npt; if (ndv >= 8) return;
  /* alternatives of this execution */
  struct alt { int at; u8 to, cost; } *al = malloc (sizeof *al * (n * 2 + 1)); int na = 0;
  for (int i = from; i < n; i++) for (int t = 0; t < it->n; t++)
    if (t != PT[i].cur && (PT[i].enabled >> t & 1)) { int cost = PT[i].curok ? 1 : 0; if (cost <= left) al[na++] = (struct alt){ i, t, cost }; }
  for (int k = 0; k < na && *stopf <= 6; k++) { DEV[ndv].at = al[k].at; DEV[ndv].to = al[k].to; ndv++; dfs (it, al[k].at + 1, left - al[k].cost); ndv--; }
  free (al);
}
static int dual_env (struct env e) { return e.maps != MAPS_OK && (e.selinux == 1 || e.selinux == 2 || e.pax == 2 || e.pax == 3 || e.rwx); }
static void item_mode (struct item *it) { it->fast = !dual_env (it->env); it->np = it->pre == 7 || it->pre == 8 ? 8192 : 320; for (int t = 0; t < it->n; t++) if (strchr (it->prog[t], 'C')) it->np = 8192; }
static void add_item (struct item it) { item_mode (&it); if (nit == cap_it) IT = realloc (IT, sizeof *IT * (cap_it = cap_it ? cap_it * 2 : 4096)); IT[nit++] = it; }
static struct env env_static (int place, int nt) { struct env e; memset (&e, 0, sizeof e); e.place = place; e.ntramp = nt; return e; }
static struct env env_rwx (int place) { struct env e = env_static (place, 0); e.maps = MAPS_NOFILE; for (int i = 0; i < NCAND; i++) e.cand[i] = C_ABSENT; return e; }
static struct env env_dual (int place, int how) { struct env e = env_static (place, 0); e.maps = MAPS_NOFILE; e.cand[K_MEMFD] = C_NOEXEC; if (how) e.selinux = how; else e.rwx = EACCES; return e; }
/* all programs over the alphabet, up to a length, that never use a closure they do not own */
static int progs (char (*out)[12], int max, const char *alpha, int len, int own)
{
  int n = 0, c[8] = { 0 }, A = strlen (alpha);
  for (int l = 1; l <= len; l++)
    {
      memset (c, 0, sizeof c);
      for (;;)
        {
          int o = own, ok = 1; char p[12]; for (int i = 0; i < l; i++) { p[i] = alpha[c[i]]; if (strchr ("aABC", p[i])) o++; else if (strchr ("fg", p[i])) { if (!o) ok = 0; o--; } else if (strchr ("cop", p[i]) && !o) ok = 0; } p[l] = 0;
          if (ok && n < max) strcpy (out[n++], p);
          int i = 0; while (i < l && ++c[i] == A) c[i++] = 0;
          if (i == l) break;
        }
    }
  return n;
}
static void pairs (int kind, struct env e, int pre, const char *alpha, int len, int own0, int own1)
{
  static char a[3000][12], b[3000][12]; int na = progs (a, 3000, alpha, len, own0), nb = progs (b, 3000, alpha, len, own1);
  for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++)
    {
      if (own0 == own1 && j < i && kind == 1) continue;
      if (pre != 0 && kind == 0 && strlen (a[i]) + strlen (b[j]) > 5) continue;
      struct item it; memset (&it, 0, sizeof it); it.kind = kind; it.env = e; it.pre = pre; it.n = 2; strcpy (it.prog[0], a[i]); strcpy (it.prog[1], b[j]); add_item (it);
    }
}
static void triple (int kind, struct env e, int pre, const char *x, const char *y, const char *z)
{ struct item it; memset (&it, 0, sizeof it); it.kind = kind; it.env = e; it.pre = pre; it.n = 3; strcpy (it.prog[0], x); strcpy (it.prog[1], y); strcpy (it.prog[2], z); add_item (it); }
static void items (int mode, int X)
{
  static const int own[10][2] = { { 0, 0 }, { 1, 0 }, { 1, 1 }, { 2, 1 }, { 2, 2 }, { 1, 1 }, { 1, 1 }, { 1, 1 }, { 2, 2 }, { 2, 2 } };
  if (mode == 12)
    {
      struct env tmp = env_static (0, 2); tmp.maps = MAPS_NOFILE;
      struct env st[] = { env_static (1, 2), env_static (0, 2), env_static (3, 4), tmp }, hp[] = { env_dual (0, 0), env_rwx (0), env_dual (1, 1), env_rwx (1), env_static (1, 4), env_dual (2, 2) };
      for (int e = 0; e < (X ? 4 : 2); e++) for (int p = 0; p <= 5; p++) if (X || e == 0 || p == 0 || p == 3 || p == 5) pairs (0, st[e], p, p == 0 ? "afc" : "afc", X ? 3 : 2, own[p][0], own[p][1]);
      for (int p = 0; p <= 5; p++) if (!X) pairs (0, st[3], p, "af", 2, own[p][0], own[p][1]);
      for (int e = 0; e < (X ? 5 : 3); e++) for (int p = 0; p <= 8; p++) { if (p == 3 || p == 4 || (!X && e == 1 && p != 0 && p != 2) || (!X && e == 2 && p != 0 && p != 6) || (!X && p == 8)) continue; pairs (0, hp[e], p, p >= 6 ? "aBfc" : "aAfc", X && p < 6 ? 3 : 2, own[p][0], own[p][1]); }
      for (int e = 0; e < 6; e++) { if (X || e == 0 || e == 4) pairs (0, hp[e], 7, "Cfc", 2, 1, 1); }
      static const char *tr[][3] = { { "a", "a", "a" }, { "ac", "ac", "ac" }, { "af", "af", "af" }, { "f", "a", "c" }, { "ff", "aa", "o" }, { "fa", "fa", "fa" }, { "ff", "ff", "aa" }, { "fac", "fo", "ga" } };
      struct env te[] = { env_static (1, 2), env_rwx (0), env_dual (0, 0), tmp };
      for (int e = 0; e < 4; e++) for (int k = 0; k < 8; k++) { if (!X && (e == 1 || (k != 0 && k != 5 && k != 6))) continue; if (k < 3) triple (0, te[e], 0, tr[k][0], tr[k][1], tr[k][2]); triple (0, te[e], 9, tr[k][0], tr[k][1], tr[k][2]); }
    }
  else
    {
      struct env es[] = { env_static (1, 2), env_rwx (0), env_dual (0, 0) };
      for (int e = 0; e < 3; e++)
        {
          pairs (1, es[e], 0, "0123456", X ? 3 : 2, 0, 0);
          if (e == 0 || X) pairs (1, es[e], 1, X ? "0234afc" : "24af", 2, 1, 0);
          triple (1, es[e], 0, "02", "31", "45"); triple (1, es[e], 0, "22", "22", "22"); triple (1, es[e], 0, "44", "33", "11"); triple (1, es[e], 9, "4f", "2a", "0c");
        }
    }
}
static int parse_ints (const char *p, int *v, int max) { int n = 0, k, c; while (n < max && sscanf (p, " %d%n", &k, &c) == 1) { v[n++] = k; p += c; } return n; }
/* preemptions explored for an item: the shorter the programs, the more */
static int item_bound (struct item *it, int X)
{
  int len = 0, b = 2; for (int t = 0; t < it->n; t++) len += strlen (it->prog[t]);
  if (X && it->n == 2 && (len <= (it->kind ? 2 : 3) || (len == 4 && it->pre == 0 && it->kind == 0 && it->env.place <= 1 && it->fast && it->env.maps == MAPS_OK))) b = 3;
  if (it->n == 2 && (len >= 5 || (len == 4 && it->pre == 8))) b = 1;
  if (it->pre != 0 && it->pre != 2 && b > 2) b = 2;
  if (it->kind == 1) b = X && it->pre == 0 && len <= 4 ? 3 : 2;
  return b < bound ? b : bound;
}
int main (int argc, char **argv)
{
  static char altstack[65536]; stack_t ss = { altstack, 0, sizeof altstack }; sigaltstack (&ss, 0);
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGALRM };
  for (int i = 0; i < 7; i++) sigaction (sg[i], &sa, 0);
  if (argc < 3) return 3;
  R = mmap (0, sizeof *R, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); stopf = mmap (0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  SH = mmap (0, sizeof *SH * SHN, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  shards = mmap (0, sizeof *shards * 64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); sh = shards;
  os_init (); shared_setup ();
  memcpy (data0, __start_mcdata, __stop_mcdata - __start_mcdata); memcpy (bss0, __start_mcbss, __stop_mcbss - __start_mcbss);
  if (!strcmp (argv[1], "replay"))
    {
      struct item it; memset (&it, 0, sizeof it); int v[64]; const char *b = argv[2];
      parse_ints (b + 3, v, 3); it.kind = v[0]; it.pre = v[1]; it.n = v[2]; parse_ints (strstr (b, "env ") + 4, v, 6 + NCAND);
      it.env = (struct env){ v[0], v[1], v[2], v[3], v[4], v[5] }; for (int i = 0; i < NCAND; i++) it.env.cand[i] = v[6 + i]; 
      const char *p = strstr (b, " prog ") + 6; for (int t = 0; t < it.n; t++) { int c; sscanf (p, "%11s%n", it.prog[t], &c); if (it.prog[t][0] == '-') it.prog[t][0] = 0; p += c; } item_mode (&it);
      int n = parse_ints (strstr (b, " sched") + 6, v, 16); ndv = n / 2; for (int i = 0; i < ndv; i++) { DEV[i].at = v[2*i]; DEV[i].to = v[2*i+1]; }
      if (argc > 3) { FILE *f = fopen (argv[3], "r"); u64 pc; if (f) { while (fscanf (f, "%lx", &pc) == 1) R->pc[R->n++] = pc; fclose (f); } } racy_load ();
      alarm (60); execute (&it); alarm (0);
      for (int i = 0; i < ndv; i++) printf ("switch at point %d (%s) to thread %d\n", DEV[i].at, pt_name[DEV[i].at] ? pt_name[DEV[i].at] : "?", DEV[i].to);
      puts (vio ? vmsg : "quiet"); return vio ? 10 : 0;
    }
  int mode = atoi (argv[1] + 1), X = !strcmp (argv[2], "thorough"), round = 0, nr; W = argc > 4 ? atoi (argv[4]) : 8; bound = X ? 3 : 2; if (argc > 6) bound = atoi (argv[6]);
  items (mode, X);
  u64 *next = (u64*)((char*)stopf + 128), discovery_runs = 0;
  for (;; round++)
    {
      nr = R->n; *next = 0; racy_load ();
      /* rounds with a small bound first, until no new racing access shows; then the full one */
      static int full; int b = full ? bound : 1;
      for (int i = 0; i < W; i++) { u64 r = shards[i].runs; discovery_runs += full ? 0 : r; if (!full || nr) ; memset (&shards[i], 0, sizeof shards[i]); }
      pid_t pid[64]; fflush (0);
      for (w = 0; w < W; w++) if (!(pid[w] = fork ()))
        {
          sh = &shards[w]; alarm (25);
          for (;;) { u64 i = __atomic_fetch_add (next, 1, __ATOMIC_RELAXED); if (i >= (u64)nit || *stopf > 6) break; item_text (sh->cur, &IT[i]); ndv = 0; int bb = full ? item_bound (&IT[i], X) : b; u64 r0 = sh->runs; struct timespec t0, t1; clock_gettime (CLOCK_MONOTONIC, &t0); dfs (&IT[i], 0, bb); sh->sw = nsw; clock_gettime (CLOCK_MONOTONIC, &t1); double dt = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9; if (getenv ("MCPROF") && dt > atof (getenv ("MCPROF"))) fprintf (stderr, "%.2f s %lu runs b=%d npt=%d %s\n", dt, sh->runs - r0, bb, npt, sh->cur); }
          sh->done = 1; _exit (0);
        }
      for (int i = 0; i < W; i++) { int st; waitpid (pid[i], &st, 0); if (!shards[i].done) { fprintf (stderr, "worker died: %x (%s)\n", st, shards[i].cur); return 3; } }
      if (*stopf) break;
      if (R->n == nr) { if (full) break; full = 1; }
      if (round > 30) { fprintf (stderr, "racing accesses do not settle\n"); return 3; }
    }
  FILE *o = fopen (argv[3], "w"); char *sep = ""; u64 runs = 0, pts = 0, mx = 0, fails = 0, sw = 0;
  fprintf (o, "{\"failures\":[");
  for (int i = 0; i < W; i++)
    {
      runs += shards[i].runs; pts += shards[i].points; fails += shards[i].fails; sw += shards[i].sw; if (shards[i].pts_max > mx) mx = shards[i].pts_max;
      for (int k = 0; k < shards[i].nfail; k++) { char *nl_ = strchr (shards[i].fail[k], '\n'); *nl_ = 0; fprintf (o, "%s{\"case\":\"%s\",\"msg\":\"%s\"}", sep, shards[i].fail[k], nl_ + 1); sep = ",\n"; }
    }
  fprintf (o, "],\n\"samples\":["); sep = ""; for (int i = 0; i < W && i < 4; i++) for (int k = 0; k < shards[i].nsample; k++) { fprintf (o, "%s\"%s\"", sep, shards[i].sample[k]); sep = ",\n"; }
  fprintf (o, "],\n\"runs\":%lu,\"points\":%lu,\"switches\":%lu,\"items\":%d,\"longest\":%lu,\"bound\":%d,\"rounds\":%d,\"racing\":%d,\"discovery\":%lu,\"fails\":%lu,\n\"pcs\":[", runs, pts, sw, nit, mx, bound, round + 1, R->n, discovery_runs, fails);
  /* the switch points of a failing run are counted with the racing accesses known when its round began */
  int npc = fails ? nr : R->n;
  for (int i = 0; i < npc && i < MAXR; i++) fprintf (o, "%s\"%lx\"", i ? "," : "", R->pc[i]);
  fprintf (o, "]}\n"); fclose (o);
  if (argc > 5) { FILE *f = fopen (argv[5], "w"); for (int i = 0; i < npc; i++) fprintf (f, "%lx\n", R->pc[i]); fclose (f); }
  return fails ? 10 : 0;
}
