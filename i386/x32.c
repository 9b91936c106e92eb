/* 32-bit x86 explorer (P22): every argument list up to a length over a type alphabet, every result type, every
   convention and interface, executed on the library's 32-bit code and judged by a model of the conventions; the model
   itself runs against functions compiled by gcc and clang.  Freestanding: there is no 32-bit C library here.  */
#include <stddef.h>
#include <stdint.h>
#include <ffi.h>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

/* ------------------------------------------------------------- system, small libc */
int dosys (int nr, ...);
#define SYS(n, a, b, c) dosys (n, a, b, c, 0, 0, 0)
void *memcpy (void *d, const void *s, size_t n) { u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
void *memset (void *d, int c, size_t n) { u8 *a = d; while (n--) *a++ = c; return d; }
int memcmp (const void *x, const void *y, size_t n) { const u8 *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
void *memmove (void *d, const void *s, size_t n) { u8 *a = d; const u8 *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
size_t strlen (const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp (const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (u8) *a - (u8) *b; }
void __stack_chk_fail_local (void) { SYS (1, 99, 0, 0); }
void __stack_chk_fail (void) { SYS (1, 99, 0, 0); }
void *__memcpy_chk (void *d, const void *s, size_t n, size_t m) { return memcpy (d, s, n); }
void *__memset_chk (void *d, int c, size_t n, size_t m) { return memset (d, c, n); }
void *malloc (size_t n) { static char pool[1 << 20]; static size_t at; char *r = pool + at; at = (at + n + 15) & ~15; return at > sizeof pool ? 0 : r; }
void free (void *p) { (void) p; }
int setjmp32 (u32 *), longjmp32 (u32 *);
static u32 env[8]; static int armed;
void abort (void) { SYS (37, SYS (20, 0, 0, 0), 6, 0); for (;;); }
static char out[4096]; static int on;
static void put (const char *s) { while (*s && on < 4090) out[on++] = *s++; out[on] = 0; }
static void puti (long v) { char b[12]; int i = 11; unsigned long u = v < 0 ? -v : v; b[i] = 0; do b[--i] = '0' + u % 10; while (u /= 10); if (v < 0) b[--i] = '-'; put (b + i); }
static void putx (u32 v) { char b[9]; int i = 8; b[8] = 0; do b[--i] = "0123456789abcdef"[v & 15]; while (v >>= 4); put (b + i); }
static void flush (void) { SYS (4, 1, (int) out, on); on = 0; }
static char msg[512]; static int bad;
static void fail (const char *s, long a, u32 x, u32 y)
{
  if (bad) return; int keep = on; on = 2000; put (s); if (a >= 0) { put (" "); puti (a); } if (x != y) { put (" (0x"); putx (x); put (" instead of 0x"); putx (y); put (")"); }
  int n = on - 2000; if (n > 500) n = 500; memcpy (msg, out + 2000, n); msg[n] = 0; on = keep; bad = 1;
}

/* ------------------------------------------------------------- types */
enum { T_INT, T_FLT, T_CPX, T_ST, T_VOID };
struct ty { const char *nm; int kind, size, sg; ffi_type *t; int part; };
#define ST(n) static ffi_type *E_##n[]
ST (S1) = { &ffi_type_uint8, 0 }; ST (S2) = { &ffi_type_sint16, 0 }; ST (S3) = { &ffi_type_uint8, &ffi_type_uint8, &ffi_type_uint8, 0 }; ST (S4) = { &ffi_type_sint32, 0 };
ST (S5) = { &ffi_type_uint32, &ffi_type_uint8, 0 }; ST (S8) = { &ffi_type_pointer, &ffi_type_sint32, 0 }; ST (Sf) = { &ffi_type_float, 0 }; ST (Sd) = { &ffi_type_double, 0 };
ST (Sfd) = { &ffi_type_float, &ffi_type_double, 0 }; ST (Sld) = { &ffi_type_longdouble, 0 }; ST (SL) = { &ffi_type_sint64, 0 };
ST (S20) = { &ffi_type_sint32, &ffi_type_double, &ffi_type_uint8, &ffi_type_uint16, &ffi_type_float, 0 };
ST (S7) = { &ffi_type_uint16, &ffi_type_uint16, &ffi_type_uint16, &ffi_type_uint8, 0 };
#define FT(n) static ffi_type Y_##n = { 0, 0, FFI_TYPE_STRUCT, E_##n }
FT (S1); FT (S2); FT (S3); FT (S4); FT (S5); FT (S8); FT (Sf); FT (Sd); FT (Sfd); FT (Sld); FT (SL); FT (S20); FT (S7);
static ffi_type *E_c1[] = { &ffi_type_sint8, 0 }, *E_c2[] = { &ffi_type_sint16, 0 }, *E_c4[] = { &ffi_type_sint32, 0 }, *E_c8[] = { &ffi_type_sint64, 0 };
static ffi_type Y_c1 = { 2, 1, FFI_TYPE_COMPLEX, E_c1 }, Y_c2 = { 4, 2, FFI_TYPE_COMPLEX, E_c2 }, Y_c4 = { 8, 4, FFI_TYPE_COMPLEX, E_c4 }, Y_c8 = { 16, 4, FFI_TYPE_COMPLEX, E_c8 };
static struct ty TY[] = {
  { "s32", T_INT, 4, 1, &ffi_type_sint32 }, { "d", T_FLT, 8, 0, &ffi_type_double }, { "s64", T_INT, 8, 1, &ffi_type_sint64 }, { "u8", T_INT, 1, 0, &ffi_type_uint8 },
  { "S3", T_ST, 3, 0, &Y_S3 }, { "s8", T_INT, 1, 1, &ffi_type_sint8 }, { "f", T_FLT, 4, 0, &ffi_type_float }, { "ld", T_FLT, 12, 0, &ffi_type_longdouble }, { "S20", T_ST, 20, 0, &Y_S20 },
  { "u16", T_INT, 2, 0, &ffi_type_uint16 }, { "s16", T_INT, 2, 1, &ffi_type_sint16 }, { "u32", T_INT, 4, 0, &ffi_type_uint32 }, { "u64", T_INT, 8, 0, &ffi_type_uint64 }, { "p", T_INT, 4, 0, &ffi_type_pointer },
  { "S1", T_ST, 1, 0, &Y_S1 }, { "S2", T_ST, 2, 0, &Y_S2 }, { "S4", T_ST, 4, 0, &Y_S4 }, { "S5", T_ST, 8, 0, &Y_S5 }, { "S8", T_ST, 8, 0, &Y_S8 }, { "S7", T_ST, 8, 0, &Y_S7 },
  { "Sf", T_ST, 4, 0, &Y_Sf }, { "Sd", T_ST, 8, 0, &Y_Sd }, { "Sfd", T_ST, 12, 0, &Y_Sfd }, { "Sld", T_ST, 12, 0, &Y_Sld }, { "SL", T_ST, 8, 0, &Y_SL },
  { "cf", T_CPX, 8, 0, &ffi_type_complex_float, 4 }, { "cd", T_CPX, 16, 0, &ffi_type_complex_double, 8 }, { "cld", T_CPX, 24, 0, &ffi_type_complex_longdouble, 12 },
  { "c1", T_CPX, 2, 0, &Y_c1, -1 }, { "c2", T_CPX, 4, 0, &Y_c2, -2 }, { "c4", T_CPX, 8, 0, &Y_c4, -4 }, { "c8", T_CPX, 16, 0, &Y_c8, -8 },
  { "v", T_VOID, 0, 0, &ffi_type_void }
};
#define NTY (int) (sizeof TY / sizeof *TY)
#define NARG (NTY - 1)
static struct ty *ty_by (const char *n) { for (int i = 0; i < NTY; i++) if (!strcmp (TY[i].nm, n)) return &TY[i]; return 0; }
/* meaningful bytes: long double has 10 of 12 */
static int padding (struct ty *t, int b)
{
  if (t->kind == T_FLT && t->size == 12) return b >= 10; if (t->t == &ffi_type_complex_longdouble) return b % 12 >= 10;
  if (t->t == &Y_Sld) return b >= 10; if (t->t == &Y_S5) return b > 4; if (t->t == &Y_S7) return b > 6; if (t->t == &Y_S20) return b == 13; return 0;
}

/* ------------------------------------------------------------- a case, and where the convention puts things */
enum { CALL, GOCALL, RAWCALL, CLODYN, CLOSTAT, GOCLO, RAWCLO, NAPI };
static const char *api_nm[] = { "call", "gocall", "rawcall", "closure", "closure-static", "goclosure", "rawclosure" };
static const int ABIS[] = { FFI_SYSV, FFI_STDCALL, FFI_THISCALL, FFI_FASTCALL, FFI_MS_CDECL, FFI_PASCAL, FFI_REGISTER };
static const char *abi_nm[] = { "sysv", "stdcall", "thiscall", "fastcall", "mscdecl", "pascal", "register" };
#define NABI 7
#define MAXA 80
struct sig { int abi, api, pat, rv, n; struct ty *ret, *a[MAXA]; };
struct loc { int reg, off; };        /* reg: 0 eax 1 edx 2 ecx, -1 stack */
struct place { struct loc l[MAXA], hid; int hidden, bytes, pop; } P;
static int rev (int abi) { return abi == FFI_PASCAL || abi == FFI_REGISTER; }
static int in_memory (struct ty *t) { return t->kind == T_ST || (t->kind == T_CPX && (t->size > 8)); }
static int supported (struct sig *s)
{
  if (rev (s->abi))
    {
      /* no compiler and no document fixes what these do with aggregates and complex values */
      if (s->ret->kind == T_ST || s->ret->kind == T_CPX) return 0;
      for (int i = 0; i < s->n; i++) if (s->a[i]->kind == T_ST || s->a[i]->kind == T_CPX) return 0;
    }
  if (s->api == GOCALL || s->api == GOCLO) return s->abi != FFI_REGISTER;
  if (s->api == RAWCALL || s->api == RAWCLO)
    {
      if (rev (s->abi) || (s->api == RAWCLO && s->abi != FFI_SYSV && s->abi != FFI_THISCALL)) return 0;
      for (int i = 0; i < s->n; i++) if (s->a[i]->kind == T_ST || s->a[i]->kind == T_CPX || s->a[i]->size == 12) return 0;
      if (s->api == RAWCLO && (s->ret->kind == T_ST || s->ret->kind == T_CPX)) return 0;
      /* the object a thiscall method belongs to always comes first */
      if (s->abi == FFI_THISCALL && s->api == RAWCLO && (!s->n || s->a[0]->kind != T_INT || s->a[0]->size > 4)) return 0;
    }
  return 1;
}
static void place (struct sig *s)
{
  static const int R0[][4] = { [FFI_THISCALL] = { 1, 2 }, [FFI_FASTCALL] = { 2, 2, 1 }, [FFI_REGISTER] = { 3, 0, 1, 2 }, [FFI_LAST_ABI] = { 0 } };
  const int *regs = R0[s->abi]; int nr = regs[0], used = 0, off = 0, own = 0;
  P.hidden = in_memory (s->ret); P.hid.reg = -1; P.hid.off = 0;
  if (P.hidden)
    {
      if (nr) P.hid.reg = regs[1 + used++];
      else { off = 4; own = 4; }
    }
  for (int i = 0; i < s->n; i++)
    {
      struct ty *t = s->a[i]; int sz = (t->size + 3) & ~3;
      P.l[i].reg = -1;
      if (t->kind == T_INT && t->size <= 4 && used < nr) { P.l[i].reg = regs[1 + used++]; continue; }
      if ((s->abi == FFI_THISCALL || s->abi == FFI_FASTCALL) && (t->kind == T_ST || (t->kind == T_INT && t->size == 8))) used = nr;
      P.l[i].off = off; off += sz;
    }
  if (rev (s->abi)) for (int i = 0; i < s->n; i++) if (P.l[i].reg < 0) P.l[i].off = off - P.l[i].off - ((s->a[i]->size + 3) & ~3);
  P.bytes = off;
  P.pop = s->abi == FFI_SYSV ? (P.hidden ? own : 0) : s->abi == FFI_MS_CDECL ? 0 : off;
}

/* ------------------------------------------------------------- values */
static u8 ABUF[MAXA][48], RBUF[64];
static u32 mixh (u32 x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; return x ^ x >> 16; }
static long double flt (u32 h) { int e = h >> 8 & 15; long double v = 1.0L + (h & 255) / 256.0L; while (e--) v *= 2; return h & 0x10000 ? -v : v; }
static void put_flt (u8 *p, int size, u32 h) { long double v = flt (h); float f = v; double d = v; if (size == 4) memcpy (p, &f, 4); else if (size == 8) memcpy (p, &d, 8); else memcpy (p, &v, 10); }
static void fill (struct ty *t, u8 *p, int seed, int pat)
{
  memset (p, 0, t->size);
  if (t->kind == T_FLT) { put_flt (p, t->size, mixh (seed * 7 + pat)); return; }
  if (t->kind == T_CPX && t->part > 0) { put_flt (p, t->part, mixh (seed * 7 + pat)); put_flt (p + t->part, t->part, mixh (seed * 7 + pat + 1000)); return; }
  if (t->t == &Y_Sf || t->t == &Y_Sd || t->t == &Y_Sld) { put_flt (p, t->size, mixh (seed * 7 + pat)); return; }
  for (int b = 0; b < t->size; b++) p[b] = pat == 0 ? mixh (seed * 64 + b) : pat == 1 ? 0xff - (seed & 1) : b == t->size - 1 || t->kind != T_INT ? 0x80 : seed;
}

/* ------------------------------------------------------------- primitives (x32.S) */
void invoke32 (void), capture32 (void);
u32 iv_save, iv_n, iv_esp, iv_eax, iv_edx, iv_ecx; void *iv_target; u8 iv_stack[4096], ov_stack[4096];
u32 ov_eax, ov_edx, ov_ecx, ov_ebx, ov_esi, ov_edi, ov_ebp, ov_pop, ov_flags; u32 ov_fenv[8]; u8 ov_st0[16]; u32 ov_fcw;
u32 cap_eax, cap_edx, cap_ecx, cap_esp, cap_flags, cap_fenv[8], cap_hasst, cap_reax, cap_redx, cap_pop; u8 cap_st[16];

static struct sig *S; static int hits, lax; static ffi_cif CIF; static ffi_type *AT[MAXA]; static void *chain_want;
static int widened (struct ty *t, u8 *v) { u32 w = 0; memcpy (&w, v, t->size); if (t->sg) { if (t->size == 1) w = (int) (int8_t) w; else if (t->size == 2) w = (int) (int16_t) w; } return w; }
static void cmp_bytes (const char *what, int i, struct ty *t, const u8 *got, const u8 *want)
{
  for (int b = 0; b < t->size; b++) if (!padding (t, b) && got[b] != want[b]) { fail (what, i, got[b], want[b]); return; }
}
/* the result RBUF in the registers */
static void result_regs (struct ty *t, u32 *eax, u32 *edx, int *hasst, u8 *st)
{
  u32 w[2] = { 0xa1b2c3d4, 0xe5f60718 }; *hasst = 0;
  if (t->kind == T_VOID || in_memory (t)) { *eax = w[0]; *edx = w[1]; return; }
  if (t->kind == T_FLT) { long double v; float f; double d; if (t->size == 4) { memcpy (&f, RBUF, 4); v = f; } else if (t->size == 8) { memcpy (&d, RBUF, 8); v = d; } else memcpy (&v, RBUF, 10); memcpy (st, &v, 10); *hasst = 1; }
  else memcpy (w, RBUF, t->size);
  *eax = w[0]; *edx = w[1];
}
void cap_hook (u8 *stk)
{
  hits++;
  u32 r[3] = { cap_eax, cap_edx, cap_ecx };
  if (S->abi == FFI_SYSV && ((u32) stk & 15)) fail ("the callee's stack is misaligned by", (u32) stk & 15, 0, 0);
  if (cap_flags & 0x400) fail ("direction flag set on entry", -1, 0, 0);
  if ((cap_fenv[2] & 0xffff) != 0xffff) fail ("x87 stack not empty on entry", -1, cap_fenv[2], 0xffff);
  for (int i = 0; i < S->n; i++)
    {
      struct ty *t = S->a[i]; u8 *got = P.l[i].reg >= 0 ? (u8 *) &r[P.l[i].reg] : stk + P.l[i].off;
      cmp_bytes (P.l[i].reg >= 0 ? "register argument" : "stack argument", i, t, got, ABUF[i]);
      if (!lax && t->kind == T_INT && t->size < 4 && *(u32 *) got != (u32) widened (t, ABUF[i])) fail ("narrow argument is not widened, number", i, *(u32 *) got, widened (t, ABUF[i]));
    }
  if (S->api == GOCALL) { int c = S->abi == FFI_THISCALL || S->abi == FFI_FASTCALL ? 0 : 2; if (r[c] != (u32) chain_want) fail ("static chain", -1, r[c], (u32) chain_want); }
  int hs; result_regs (S->ret, &cap_reax, &cap_redx, &hs, cap_st); cap_hasst = hs; cap_pop = P.pop;
  if (P.hidden)
    {
      u8 *d = P.hid.reg >= 0 ? (u8 *) r[P.hid.reg] : *(u8 **) (stk + P.hid.off);
      if (!d) { fail ("null hidden result address", -1, 0, 0); return; }
      memcpy (d, RBUF, S->ret->size); cap_reax = (u32) d;
    }
  memset (stk, 0xC7, P.bytes);        /* the callee owns its parameters */
}

/* closure side */
static u8 canary[64]; static void *ud_want; static int compiled;        /* the callee is compiled: it need not widen its result */
static void check_av (void **av)
{
  for (int i = 0; i < S->n; i++) cmp_bytes ("handler's argument", i, S->a[i], av[i], ABUF[i]);
}
static void store (void *ret)
{
  struct ty *t = S->ret; if (t->kind == T_VOID) return;
  if (t->kind == T_INT && t->size < 4) { if (S->rv) *(u32 *) ret = widened (t, RBUF); else { memset (ret, 0xEE, 4); memcpy (ret, RBUF, t->size); } }
  else memcpy (ret, RBUF, t->size);
}
static void handler (ffi_cif *c, void *ret, void **av, void *ud)
{
  hits++; if (c != &CIF) fail ("handler's description", -1, (u32) c, (u32) &CIF); if (ud != ud_want) fail ("handler's user pointer", -1, (u32) ud, (u32) ud_want);
  check_av (av); store (ret);
}
static void raw_handler (ffi_cif *c, void *ret, ffi_raw *raw, void *ud)
{
  void *av[MAXA]; hits++; if (c != &CIF) fail ("handler's description", -1, (u32) c, (u32) &CIF); if (ud != ud_want) fail ("handler's user pointer", -1, (u32) ud, (u32) ud_want);
  ffi_raw_to_ptrarray (c, raw, av); check_av (av); store (ret);
}

/* static trampolines: the real table, mapped by this program */
static u8 *tcode; static size_t tsize, tmap; static int stat_on; static char FTRAMP;
void *ffi_tramp_arch (size_t *, size_t *);
int ffi_tramp_is_present (void *f) { return stat_on; }
int ffi_tramp_is_supported (void) { return 0; }
void *ffi_tramp_alloc (int f) { return 0; }
void ffi_tramp_free (void *f) { }
void *ffi_tramp_get_addr (void *f) { return tcode; }
void ffi_tramp_set_parms (void *f, void *target, void *data) { void **p = (void **) (tcode + tmap + tsize * (f == &FTRAMP ? 3 : 0)); p[0] = data; p[1] = target; }
static u8 *cmem;

static int setup (struct sig *s)
{
  S = s; place (s); bad = 0; hits = 0;
  for (int i = 0; i < s->n; i++) { fill (s->a[i], ABUF[i], i + 3, s->pat); AT[i] = s->a[i]->t; }
  memset (RBUF, 0x11, sizeof RBUF); fill (s->ret, RBUF, 77, s->pat);
  ffi_status st = ffi_prep_cif (&CIF, s->abi, s->n, s->ret->t, AT);
  if (st != FFI_OK) { fail ("prepare refuses, status", st, 0, 0); return 0; }
  for (int i = 0; i < s->n; i++) if (AT[i]->size != (size_t) s->a[i]->size) { fail ("size of type", i, AT[i]->size, s->a[i]->size); return 0; }
  return 1;
}
static void preserved (u32 pop)
{
  if (ov_pop != pop) fail ("stack pointer moved by", -1, ov_pop, pop);
  if (ov_ebx != 0x1b2b3b4b || ov_esi != 0x5a6a7a8a || ov_edi != 0x9d0d1d2d || ov_ebp != 0x0e1e2e3e) fail ("a preserved register is lost", -1, 0, 0);
  if (ov_flags & 0x400) fail ("direction flag set on return", -1, 0, 0);
}
static u8 rbuf[128];
static void run_call (struct sig *s)
{
  void *av[MAXA], *keep[MAXA]; ffi_raw raw[MAXA * 3]; u8 abuf[sizeof ABUF]; void *rv = s->rv ? 0 : rbuf + 32; u32 *st = (u32 *) iv_stack;
  for (int i = 0; i < s->n; i++) av[i] = keep[i] = ABUF[i];
  memcpy (abuf, ABUF, sizeof ABUF); memset (rbuf, 0xA7, sizeof rbuf); chain_want = (void *) 0x5CA1AB1E;
  cap_eax = cap_edx = cap_ecx = 0;
  st[0] = (u32) &CIF; st[1] = (u32) capture32; st[2] = (u32) rv; st[3] = (u32) av; st[4] = (u32) chain_want; iv_n = 32; iv_eax = 0xdead0001; iv_edx = 0xdead0002; iv_ecx = 0xdead0003;
  iv_target = s->api == CALL ? (void *) ffi_call : s->api == GOCALL ? (void *) ffi_call_go : (void *) ffi_raw_call;
  if (s->api == RAWCALL) { memset (raw, 0x3C, sizeof raw); ffi_ptrarray_to_raw (&CIF, av, raw); st[3] = (u32) raw; }
  invoke32 ();
  if (hits != 1) fail ("callee ran so many times:", hits, 0, 0);
  preserved (0);
  if ((ov_fenv[2] & 0xffff) != 0xffff) fail ("values left on the x87 stack", -1, ov_fenv[2] & 0xffff, 0xffff);
  for (int i = 0; i < s->n; i++) if (av[i] != keep[i]) fail ("argument array entry changed", i, 0, 0);
  if (memcmp (abuf, ABUF, sizeof ABUF)) fail ("an argument object changed", -1, 0, 0);
  int n = s->ret->size; if (s->ret->kind == T_INT && n < 4) n = 4;
  if (rv)
    {
      if (s->ret->kind == T_INT && s->ret->size < 4) { if (*(u32 *) (rbuf + 32) != (u32) widened (s->ret, RBUF)) fail ("narrow result", -1, *(u32 *) (rbuf + 32), widened (s->ret, RBUF)); }
      else cmp_bytes ("result byte", -1, s->ret, rbuf + 32, RBUF);
    }
  else n = 0;
  for (int b = 0; b < (int) sizeof rbuf; b++) if ((b < 32 || b >= 32 + n) && rbuf[b] != 0xA7) { fail ("write outside the result, at", b - 32, 0, 0); break; }
}
/* native caller: stack image and registers as the convention wants them */
static void native (struct sig *s, void *target)
{
  u32 r[3] = { 0xcafe0001, 0xcafe0002, 0xcafe0003 }; memset (rbuf, 0xA7, sizeof rbuf); memset (iv_stack, 0x6D, sizeof iv_stack);
  iv_n = (P.bytes + 15 & ~15) + 64;
  for (int i = 0; i < s->n; i++)
    {
      struct ty *t = s->a[i]; u8 *d = P.l[i].reg >= 0 ? (u8 *) &r[P.l[i].reg] : iv_stack + P.l[i].off;
      memcpy (d, ABUF[i], t->size); if (t->kind == T_INT && t->size < 4) { u32 w = widened (t, ABUF[i]); memcpy (d, &w, 4); }
    }
  if (P.hidden) { u8 *h = rbuf + 32; if (P.hid.reg >= 0) r[P.hid.reg] = (u32) h; else memcpy (iv_stack + P.hid.off, &h, 4); }
  if (s->api == GOCLO) r[s->abi == FFI_THISCALL || s->abi == FFI_FASTCALL ? 0 : 2] = (u32) chain_want;
  iv_eax = r[0]; iv_edx = r[1]; iv_ecx = r[2]; iv_target = target;
  invoke32 ();
  if (hits != 1) fail ("callee ran so many times:", hits, 0, 0);
  preserved (P.pop);
  u8 *above = ov_stack + P.bytes, *end = ov_stack + iv_n; for (; above < end; above++) if (*above != 0x6D) { fail ("caller's frame overwritten above the arguments, at", above - ov_stack, 0, 0); break; }
  u32 eax, edx; int hs; u8 st[16]; result_regs (s->ret, &eax, &edx, &hs, st);
  int full = (ov_fenv[2] & 0xffff) != 0xffff;
  if (full != hs) fail (hs ? "no value on the x87 stack" : "values left on the x87 stack", -1, 0, 0);
  if (hs && full)
    {
      u8 b[16]; long double v; memset (b, 0, 16); memcpy (&v, ov_st0, 10); float f = v; double d = v;
      if (s->ret->size == 4) memcpy (b, &f, 4); else if (s->ret->size == 8) memcpy (b, &d, 8); else memcpy (b, &v, 10);
      cmp_bytes ("result byte", -1, s->ret, b, RBUF);
    }
  if (P.hidden) { if (ov_eax != (u32) (rbuf + 32)) fail ("eax does not hold the hidden result address", -1, ov_eax, (u32) (rbuf + 32)); cmp_bytes ("result byte", -1, s->ret, rbuf + 32, RBUF); }
  else if (s->ret->kind == T_INT || s->ret->kind == T_CPX)
    {
      u32 w[2] = { ov_eax, ov_edx }; cmp_bytes ("result byte", -1, s->ret, (u8 *) w, RBUF);
      if (!compiled && s->ret->kind == T_INT && s->ret->size < 4 && ov_eax != (u32) widened (s->ret, RBUF)) fail ("narrow result", -1, ov_eax, widened (s->ret, RBUF));
    }
  int n = P.hidden ? s->ret->size : 0;
  for (int b = 0; b < (int) sizeof rbuf; b++) if ((b < 32 || b >= 32 + n) && rbuf[b] != 0xA7) { fail ("write outside the result, at", b - 32, 0, 0); break; }
}
static void *make_closure (struct sig *s)
{
  ffi_status st; void *code = cmem; ffi_closure *c = (ffi_closure *) cmem; static ffi_go_closure go;
  memset (cmem, 0xCC, 256); stat_on = 0; ud_want = (void *) 0x0DDBA11;
  if (s->api == GOCLO) { st = ffi_prep_go_closure (&go, &CIF, handler); ud_want = chain_want = &go; code = *(void **) &go; }
  else if (s->api == RAWCLO) { if (s->pat & 1) { stat_on = 1; c->ftramp = &FTRAMP; code = tcode + 3 * tsize; } st = ffi_prep_raw_closure_loc ((ffi_raw_closure *) c, &CIF, raw_handler, ud_want, code); }
  else
    {
      if (s->api == CLOSTAT) { stat_on = 1; c->ftramp = &FTRAMP; code = tcode + 3 * tsize; }
      st = ffi_prep_closure_loc (c, &CIF, handler, ud_want, code);
    }
  if (st != FFI_OK) { fail ("closure refused, status", st, 0, 0); return 0; }
  return code;
}

/* compiled functions */
struct gen { int abi, n; const char *ret, *a[8]; void *callee; void (*caller) (void *fn, u8 (*av)[48], u8 *rv); const char *cc; };
extern struct gen *gen_tables[] __attribute__ ((weak));
u8 gen_got[8][48]; int gen_hits; u8 *gen_ret = RBUF;
static void check_got (void) { for (int i = 0; i < S->n; i++) cmp_bytes ("compiled callee's argument", i, S->a[i], gen_got[i], ABUF[i]); }

static u32 runs, ncases, nviol;
static void describe (struct sig *s) { put (abi_nm[0]); on -= strlen (abi_nm[0]); for (int i = 0; i < NABI; i++) if (ABIS[i] == s->abi) put (abi_nm[i]); put (" "); put (api_nm[s->api]); put (" "); puti (s->pat); put (" "); puti (s->rv); put (" "); put (s->ret->nm); for (int i = 0; i < s->n; i++) { put (" "); put (s->a[i]->nm); } }
static void on_signal (int sig) { if (armed) { armed = 0; fail ("crash, signal", sig, 0, 0); longjmp32 (env); }
  if (S && S->ret) { on = 0; put ("F "); describe (S); put (" : crash after the call, signal "); puti (sig); put ("\n"); flush (); }
  SYS (1, 98, 0, 0);
}
static void one (struct sig *s)
{
  if (!(runs & 255)) SYS (27, 5, 0, 0);
  runs++; bad = 0;
  if (!setjmp32 (env))
    {
      armed = 1;
      if (setup (s)) { if (s->api < CLODYN) run_call (s); else { void *code = make_closure (s); if (code) native (s, code); } }
    }
  armed = 0;
}
static int shard, nshards; static u32 idx; static int thorough;
static void emit (struct sig *s)
{
  if (!supported (s)) return;
  if (idx++ % nshards != (u32) shard || nviol >= 3) return;
  ncases++;
  for (s->pat = 0; s->pat < 3; s->pat++) for (s->rv = 0; s->rv < 2; s->rv++)
    {
      if (s->rv && s->api >= CLODYN && (s->ret->kind != T_INT || s->ret->size >= 4)) continue;
      one (s);
      if (bad) { put ("F "); describe (s); put (" : "); put (msg); put ("\n"); flush (); nviol++; s->pat = s->rv = 0; return; }
    }
  if (ncases == 1000) { s->pat = s->rv = 0; put ("E "); describe (s); put ("\n"); flush (); }
  s->pat = s->rv = 0;
}
static void lists (struct sig *s, int len, int na, int left)
{
  if (!left) { emit (s); return; }
  for (int i = 0; i < na; i++) { s->a[s->n++] = &TY[i]; lists (s, len, na, left - 1); s->n--; if (nviol >= 3) return; }
}
static void conf (void)
{
  u32 n = 0, m = 0;
  for (int k = 0; gen_tables[k]; k++) for (struct gen *g = gen_tables[k]; g->ret; g++)
    for (int mode = 0; mode < 4; mode++)
      {
        struct sig s; memset (&s, 0, sizeof s); s.abi = g->abi; s.n = g->n; s.ret = ty_by (g->ret); for (int i = 0; i < g->n; i++) s.a[i] = ty_by (g->a[i]);
        for (s.pat = 0; s.pat < 2; s.pat++)
          {
            if (mode == 1 && s.pat) continue;
            if (!(n & 255)) SYS (27, 5, 0, 0);
            bad = 0; n++;
            if (!setjmp32 (env))
              {
                armed = 1;
                if (mode == 0)        /* model's registers and stack -> compiled callee */
                  { s.api = CLODYN; setup (&s); compiled = 1; memset (gen_got, 0, sizeof gen_got); gen_hits = 0; hits = 1; native (&s, g->callee); if (gen_hits != 1) fail ("compiled callee ran so many times:", gen_hits, 0, 0); check_got (); }
                else if (mode == 1)   /* compiled caller -> model's capture */
                  { s.api = RAWCALL; lax = g->cc[0] == 'c'; /* clang does not widen for fastcall */ setup (&s); g->caller (capture32, ABUF, rbuf); if (s.ret->kind != T_VOID) cmp_bytes ("compiled caller's result byte", -1, s.ret, rbuf, RBUF); }
                else if (mode == 2)   /* library -> compiled callee */
                  {
                    void *av[MAXA]; s.api = CALL; setup (&s); for (int i = 0; i < s.n; i++) av[i] = ABUF[i];
                    memset (gen_got, 0, sizeof gen_got); gen_hits = 0; memset (rbuf, 0xA7, sizeof rbuf);
                    u32 *st = (u32 *) iv_stack; st[0] = (u32) &CIF; st[1] = (u32) g->callee; st[2] = (u32) rbuf; st[3] = (u32) av; iv_n = 32; iv_target = ffi_call; invoke32 (); preserved (0);
                    if (gen_hits != 1) fail ("compiled callee ran so many times:", gen_hits, 0, 0); check_got (); if (s.ret->kind != T_VOID) cmp_bytes ("result byte", -1, s.ret, rbuf, RBUF);
                  }
                else                  /* compiled caller -> library closure */
                  { s.api = s.pat ? CLOSTAT : CLODYN; setup (&s); void *code = make_closure (&s); if (code) { g->caller (code, ABUF, rbuf); if (hits != 1) fail ("handler ran so many times:", hits, 0, 0); if (s.ret->kind != T_VOID) cmp_bytes ("compiled caller's result byte", -1, s.ret, rbuf, RBUF); } }
              }
            armed = compiled = lax = 0;
            if (bad && m < 6) { m++; put (mode < 2 ? "M " : "F "); put ("conf "); put (g->cc); put (mode == 0 ? " callee-by-model " : mode == 1 ? " caller-to-model " : mode == 2 ? " callee-by-library " : " caller-to-closure "); describe (&s); put (" : "); put (msg); put ("\n"); flush (); }
          }
      }
  put ("C "); puti (n); put ("\n"); flush ();
}
static int num (const char *s) { int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + *s++ - '0'; return v; }
int start_c (long *sp)
{
  int argc = sp[0]; char **argv = (char **) (sp + 1); static u8 alt[65536]; struct sig s; static u32 ss[3];
  ss[0] = (u32) alt; ss[2] = sizeof alt; SYS (186, (int) ss, 0, 0);
  extern void sigret (void); u32 sa[5] = { (u32) on_signal, 0x48000000 | 0x04000000, (u32) sigret, 0, 0 };
  int sg[] = { 4, 5, 6, 7, 8, 11, 14 }; for (int i = 0; i < 7; i++) dosys (174, sg[i], sa, 0, 8, 0, 0);
  cmem = (u8 *) dosys (192, 0, 4096, 7, 0x22, -1, 0);
  void *tab = ffi_tramp_arch (&tsize, &tmap); tcode = (u8 *) dosys (192, 0, 2 * tmap, 7, 0x22, -1, 0); memcpy (tcode, tab, tmap);
  if (argc < 3) SYS (1, 3, 0, 0);
  memset (&s, 0, sizeof s);
  if (!strcmp (argv[1], "replay"))
    {
      /* ABI API PAT RV RET TYPES.. as separate arguments */
      for (int i = 0; i < NABI; i++) if (!strcmp (abi_nm[i], argv[2])) s.abi = ABIS[i];
      for (int i = 0; i < NAPI; i++) if (!strcmp (api_nm[i], argv[3])) s.api = i;
      s.pat = num (argv[4]); s.rv = num (argv[5]); s.ret = ty_by (argv[6]); for (int i = 7; i < argc; i++) s.a[s.n++] = ty_by (argv[i]);
      one (&s); put (bad ? msg : "quiet"); put ("\n"); flush (); SYS (1, bad ? 10 : 0, 0, 0);
    }
  if (!strcmp (argv[1], "conf")) { conf (); SYS (1, 0, 0, 0); }
  thorough = !strcmp (argv[1], "thorough"); shard = num (argv[2]); nshards = num (argv[3]);
  /* quick|thorough SHARD NSHARDS */
  for (int a = 0; a < NABI; a++) for (int p = 0; p < NAPI; p++)
    {
      static const char *rs[] = { "v", "s32", "S8", "d", "s8" };
      s.abi = ABIS[a]; s.api = p;
      for (int r = 0; r < NTY; r++) { s.ret = &TY[r]; for (int n = 0; n <= (thorough ? 3 : 2); n++) lists (&s, n, n < 3 ? NARG : 8, n); }
      for (int r = 0; r < (thorough ? 5 : 3); r++) { s.ret = ty_by (rs[r]); lists (&s, 3, NARG, 3); lists (&s, 4, thorough ? NARG : 9, 4); lists (&s, 5, thorough ? 9 : 5, 5); if (thorough) lists (&s, 6, 6, 6); }
      /* long lists */
      for (int r = 0; r < 5; r++) for (int x = 0; x < NARG; x++) for (int y = 0; y < NARG; y++) for (int n = 6; n <= 70; n += n < 20 ? 1 : 10)
        { s.ret = ty_by (rs[r]); s.n = n; for (int i = 0; i < n; i++) s.a[i] = &TY[i % 3 == 2 ? y : x]; emit (&s); s.n = 0; }
    }
  put ("D "); puti (ncases); put (" "); puti (runs); put (" "); puti (nviol); put ("\n"); flush ();
  SYS (1, 0, 0, 0); return 0;
}
