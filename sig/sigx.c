/* Signature explorer: exhaustive bounded exploration of the argument/result
   marshaller of the library under test, replayed against the real code and
   judged by the reference model in model.h.  */
#include "model.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>

#define MAXA 300
enum { A_CALL, A_GOCALL, A_RAWCALL, A_JRAWCALL, A_NFWD,
       A_CLO = 10, A_CLODYN, A_CLOOLD, A_GOCLO, A_RAWCLO, A_RAWDYN, A_JRAWCLO, A_JRAWDYN };
static const char *api_name[] = { "call","gocall","rawcall","jrawcall","","","","","","",
  "closure","closure-dyn","closure-old","goclosure","rawclosure","rawclosure-dyn","jrawclosure","jrawclosure-dyn" };

/* compiled-code conformance: functions generated by `sigx gencode' and compiled by real compilers */
struct gen { const char *sig; void *callee; void (*caller) (void *fn, void **av, void *rv); const char *cc; };
extern struct gen *gen_tables[] __attribute__((weak));
int conf_n; u8 *conf_out[300]; u8 *conf_ret;
enum { A_GENCALLEE = 20, A_GENCALLER, A_GENFWD, A_GENCLO, A_HCALL_ = 30, A_HRAW_, A_HGO_, A_HCLO_ };
static struct gen *GEN;

enum { E_ARG=1, E_AL=2, E_ALIGN=4, E_RET=8, E_MUT=16, E_BOUNDS=32, E_FRAME=64, E_CHAIN=128,
       E_STATUS=256, E_COUNT=512, E_CRASH=1024, E_ENTRY=2048, E_RAW=4096 };

struct sig { int api, abi; T *ret; int nargs, nfixed; int pat, rv, guard; T *args[MAXA]; };

/* ---- globals used by asm ---- */
void *inv_cur, *inv_rbp, *inv_target; u64 inv_tmp;
struct regs cap, retv; u32 retv_x87; u8 retv_st[32] __attribute__((aligned(16)));
u64 h_rsp, h_flags; u32 h_mxcsr; u16 h_fcw;

/* ---- shared memory with the parent ---- */
struct shard {
  u64 runs, enumerated, args_checked, fails;
  volatile int started, done; char cur[6000]; int nfail; int failcat[8]; char fail[8][7000]; char sample[4][1200]; int nsample;
  u64 extra[8]; int mask;
};
static struct shard *sh;
#define NBITS (1u << 25)
static u64 *stbits, *trbits;      /* shared by all workers: distinct abstract states and steps */
static inline void setbit (u64 *b, u64 h) { h = mix (h) & (NBITS - 1); u64 m = 1ull << (h & 63); if (!(b[h >> 6] & m)) __atomic_fetch_or (&b[h >> 6], m, __ATOMIC_RELAXED); }

/* ---- case text ---- */
static void sig_text (const struct sig *s, char *b, size_t n)
{
  size_t o = snprintf (b, n, "api=%d abi=%d pat=%d rv=%d guard=%d nfixed=%d ret=%s args=", s->api, s->abi, s->pat, s->rv, s->guard, s->nfixed, s->ret->name);
  for (int i = 0; i < s->nargs; )
    {
      int j = i; while (j < s->nargs && s->args[j] == s->args[i]) j++;
      if (j - i > 1) o += snprintf (b + o, o < n ? n - o : 0, "%s%d*%s", i ? ";" : "", j - i, s->args[i]->name);
      else o += snprintf (b + o, o < n ? n - o : 0, "%s%s", i ? ";" : "", s->args[i]->name);
      i = j;
      if (o >= n) break;
    }
}
static int sig_parse (struct sig *s, const char *b)
{
  char ret[4096]; int n = 0;
  memset (s, 0, sizeof *s);
  if (sscanf (b, "api=%d abi=%d pat=%d rv=%d guard=%d nfixed=%d ret=%4000s args=%n", &s->api, &s->abi, &s->pat, &s->rv, &s->guard, &s->nfixed, ret, &n) < 7 || !n) return 0;
  s->ret = ty (ret);
  const char *p = b + n;
  while (*p && *p != '\n' && *p != ' ')
    {
      if (*p == ';') p++;
      int rep = 1; char *e;
      if (*p >= '0' && *p <= '9') { rep = strtol (p, &e, 10); p = e + 1; }
      T *t = parse_type_ (&p);
      while (rep-- && s->nargs < MAXA) s->args[s->nargs++] = t;
    }
  return 1;
}

static int errcat; static char errmsg[1400];
static void err (int cat, const char *fmt, ...)
{
  if (!errcat)
    { va_list ap; va_start (ap, fmt); vsnprintf (errmsg, sizeof errmsg, fmt, ap); va_end (ap); }
  errcat |= cat;
}
static int want_mask = ~0;
static void hex (char *o, const void *p, int n) { if (n > 48) n = 48; for (int i = 0; i < n; i++) sprintf (o + 2*i, "%02x", ((const u8*)p)[i]); o[2*n] = 0; }

/* ---- memory for arguments, vectors, results ---- */
#define NSLOT 24
#define SLOTSZ 24576
#define BIG 20480            /* largest object */
static u8 *slot_w[NSLOT+8], *slot_r[NSLOT+8];     /* two guarded mappings of the same pages: writable / read-only */
static u8 *res_w;                                 /* guarded, writable */
static u8 *plain_mem;  /* unguarded argument memory */
static u8 *rwx;
static void *map_guarded (int fd, size_t off, int prot)
{
  u8 *b = mmap (NULL, SLOTSZ + 8192, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  if (mmap (b + 4096, SLOTSZ, prot, (fd < 0 ? MAP_PRIVATE|MAP_ANONYMOUS : MAP_SHARED)|MAP_FIXED, fd, off) == MAP_FAILED) { perror ("mmap"); exit (3); }
  return b + 4096;
}
static void mem_init (void)
{
  int fd = memfd_create ("sigx", 0);
  if (fd < 0 || ftruncate (fd, (NSLOT+8) * SLOTSZ)) { perror ("memfd"); exit (3); }
  for (int i = 0; i < NSLOT + 8; i++)
    {
      slot_w[i] = map_guarded (fd, (size_t)i * SLOTSZ, PROT_READ|PROT_WRITE);
      slot_r[i] = map_guarded (fd, (size_t)i * SLOTSZ, PROT_READ);
    }
  close (fd);
  res_w = map_guarded (-1, 0, PROT_READ|PROT_WRITE);
  plain_mem = mmap (NULL, (size_t)MAXA * (BIG + 320), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  rwx = mmap (NULL, 8192, PROT_READ|PROT_WRITE|PROT_EXEC, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
}

/* ---- one case ---- */
static const struct sig *S; static ffi_cif *CIF;
static struct place PL[MAXA]; static struct place RP; static int RMEM; static u32 STK;
static u8 *AV[MAXA];              /* argument objects, writable view */
static void *AVR[MAXA];           /* what the library is given */
static void *VEC[MAXA], **VECP;
static u8 RETVAL[BIG]; static void *RVAL; static int COUNT; static u64 CHAIN; static void *HIDDEN_EXPECT;
static ffi_raw *RAWP; static size_t RAWN; static void *CUR_UD; static int POISON_X87;
static u64 seed_of (int i) { return 0x1234 + i * 31; }
#define IN_MXCSR 0x3f80      /* round down, all masked: unusual on purpose */
#define IN_FCW   0x0a7f      /* round up, double precision, all masked */

static int is_ms (int abi) { return abi != FFI_UNIX64; }

static u64 abs_state (const struct sig *s, const struct mst *m)
{ return (((((u64)s->api * 5 + s->abi) * 4096 + s->ret->id) * 512 + m->g) * 512 + m->s) * 8192 + m->stk; }
static void account (const struct sig *s)
{
  struct mst m; struct place pl; int ms = s->abi != FFI_UNIX64;
  if (ms) ms_start (&m, s->ret); else sysv_start (&m, s->ret);
  u64 st = abs_state (s, &m); setbit (stbits, st);
  for (int i = 0; i < s->nargs; i++)
    {
      setbit (trbits, st * 31 + s->args[i]->id * 2 + (s->nfixed >= 0 && i >= s->nfixed) + 7);
      if (ms) ms_arg (&m, s->args[i], &pl); else sysv_arg (&m, s->args[i], &pl);
      st = abs_state (s, &m); setbit (stbits, st);
    }
}
static void model_sig (const struct sig *s)
{
  struct mst m;
  if (is_ms (s->abi)) { ms_start (&m, s->ret); for (int i = 0; i < s->nargs; i++) ms_arg (&m, s->args[i], &PL[i]); ms_ret (s->ret, &RP, &RMEM); STK = m.g * 8; if (STK < 32) STK = 32; }
  else { sysv_start (&m, s->ret); for (int i = 0; i < s->nargs; i++) sysv_arg (&m, s->args[i], &PL[i]); sysv_ret (s->ret, &RP, &RMEM); STK = m.stk; }
}

static void check_entry_state (u64 rsp, u64 flags, u32 mx, u16 fcw, const u8 *fpu, const char *who)
{
  if ((rsp + 8) & 15) err (E_ALIGN, "%s entered with misaligned stack (rsp+8=%#lx)", who, (long)(rsp + 8));
  if (flags & 0x400) err (E_ENTRY, "%s entered with the direction flag set", who);
  if ((mx & 0xffc0) != (IN_MXCSR & 0xffc0)) err (E_ENTRY, "%s entered with MXCSR %#x instead of %#x", who, mx, IN_MXCSR);
  if (fcw != IN_FCW) err (E_ENTRY, "%s entered with x87 control word %#x instead of %#x", who, fcw, IN_FCW);
  if (fpu && *(u16*)(fpu + 8) != 0xffff) err (E_ENTRY, "%s entered with a non-empty x87 stack (tags %#x)", who, *(u16*)(fpu + 8));
}

/* the callee of forward calls */
void probe_c (void)
{
  struct regs c = cap;
  const struct sig *s = S;
  u8 *sp = (u8*)c.gpr[4] + 8;
  char h1[200], h2[200];
  int ms = is_ms (s->abi), nsse = 0;
  COUNT++;
  if (s->api != A_GENCALLER) check_entry_state (c.gpr[4], c.rflags, c.mxcsr, c.fcw, c.fpu, "callee");
  for (int i = 0; i < s->nargs; i++)
    {
      T *t = s->args[i]; const u8 *m = value_mask (t);
      for (int k = 0; k < PL[i].n; k++)
        {
          struct piece *p = &PL[i].p[k];
          const u8 *src = NULL;
          switch (p->where)
            {
            case L_GPR: src = (u8*)&c.gpr[p->reg]; break;
            case L_SSE: src = c.xmm[p->reg]; nsse++; break;
            case L_STACK: src = sp + p->stk; break;
            case L_REF:
              src = *(u8**)(p->reg < 4 ? (u8*)&c.gpr[ms_gpr[p->reg]] : sp + p->stk);
              if ((u64)src < 4096 || ((u64)src & (t->align - 1)))
                { err (E_ARG, "arg %d (%s): bad by-reference pointer %p", i, t->name, src); src = NULL; }
              else if ((src + t->size > AV[i] && src < AV[i] + t->size)
                       || (src + t->size > (u8*)AVR[i] && src < (u8*)AVR[i] + t->size))
                { err (E_ARG|E_MUT, "arg %d (%s): passed by reference to the caller's own object", i, t->name); }
              break;
            }
          u32 len = p->where == L_REF ? t->size : p->len;
          if (!src) continue;
          for (u32 b = 0; b < len; b++)
            if ((src[b] ^ AV[i][p->off + b]) & m[p->off + b])
              {
                hex (h1, AV[i] + p->off, len); hex (h2, src, len);
                err (E_ARG, "arg %d (%s) bytes %u..%u: expected %s got %s in %s %d/%u", i, t->name, p->off, p->off + len, h1, h2,
                     p->where == L_GPR ? "gpr" : p->where == L_SSE ? "xmm" : p->where == L_STACK ? "stack" : "ref", p->reg, p->stk);
                break;
              }
          if (!ms && p->where == L_GPR && s->api != A_GENCALLER && is_int_kind (t->kind) && *(u64*)src != widen (t, AV[i]))
            err (E_ARG, "arg %d (%s): register %d holds %#lx, not widened to %#lx", i, t->name, p->reg, *(u64*)src, widen (t, AV[i]));
          if (ms && p->where == L_SSE && s->nfixed >= 0 && i >= s->nfixed && memcmp (&c.gpr[ms_gpr[p->reg]], AV[i], t->size))
            err (E_ARG, "variadic arg %d (%s): not duplicated in the integer register", i, t->name);
        }
      sh->args_checked++;
    }
  if (!ms && s->nfixed >= 0)
    { u8 al = c.gpr[0]; if (al < nsse || al > 8) err (E_AL, "variadic call: al=%d with %d vector registers used", al, nsse); }
  if ((s->api == A_GOCALL || s->api == A_HGO_) && c.gpr[10] != CHAIN) err (E_CHAIN, "static chain %#lx instead of %#lx", c.gpr[10], CHAIN);
  /* result memory */
  u8 *hid = NULL;
  if (RMEM)
    {
      hid = (u8*)c.gpr[ms ? 1 : 7];
      if (HIDDEN_EXPECT ? hid != HIDDEN_EXPECT : (u64)hid < 4096)
        { err (E_ARG|E_RET, "hidden result pointer is %p, expected %p", hid, HIDDEN_EXPECT); hid = NULL; }
      else if (!HIDDEN_EXPECT && ((u64)hid & (s->ret->align - 1)))
        err (E_ARG|E_RET, "hidden result pointer %p misaligned", hid);
    }
  /* destroy everything the callee owns */
  for (int i = 0; i < s->nargs; i++)
    if (PL[i].p[0].where == L_REF && !errcat)
      {
        struct piece *p = &PL[i].p[0];
        u8 *q = *(u8**)(p->reg < 4 ? (u8*)&c.gpr[ms_gpr[p->reg]] : sp + p->stk);
        memset (q, 0xB7, s->args[i]->size);
      }
  if (!(errcat & E_ALIGN)) memset (sp, 0xB9, STK);
  /* results */
  struct regs r;
  for (int i = 0; i < 16; i++) { r.gpr[i] = mix (0xabc + i) | 0x8000000080000000ull; for (int k = 0; k < 16; k++) r.xmm[i][k] = 0x91 + i * 16 + k; }
  int nx = 0;
  if (RMEM) { if (hid) memcpy (hid, RETVAL, s->ret->size); r.gpr[0] = (u64)hid; }
  else for (int k = 0; k < RP.n; k++)
    {
      struct piece *p = &RP.p[k];
      if (p->where == L_GPR) memcpy (&r.gpr[p->reg], RETVAL + p->off, p->len);
      else if (p->where == L_SSE) memcpy (r.xmm[p->reg], RETVAL + p->off, p->len);
      else { memcpy (retv_st + 16 * p->reg, RETVAL + p->off, 10); nx++; }
    }
  retv = r; retv_x87 = nx; cap = c;
}

static u8 *place_obj (int i, u32 size, int guard, u8 **ro)
{
  if (guard && i < NSLOT)
    {
      u32 o = guard == 1 ? SLOTSZ - size : 0;
      *ro = slot_r[i] + o; return slot_w[i] + o;
    }
  u8 *p = plain_mem + (size_t)i * (BIG + 320) + 64;
  *ro = p; return p;
}

static void frame_check (struct inv *iv, int abi, int x87)
{
  static const int cs[] = { 3, 5, 12, 13, 14, 15 };
  static const char *nm[] = { "rax","rcx","rdx","rbx","rsp","rbp","rsi","rdi","r8","r9","r10","r11","r12","r13","r14","r15" };
  for (int i = 0; i < 6; i++)
    if (iv->out.gpr[cs[i]] != iv->in.gpr[cs[i]]) err (E_FRAME, "%s not preserved (%#lx -> %#lx)", nm[cs[i]], iv->in.gpr[cs[i]], iv->out.gpr[cs[i]]);
  if (abi)      /* Microsoft caller */
    {
      for (int i = 6; i <= 7; i++) if (iv->out.gpr[i] != iv->in.gpr[i]) err (E_FRAME, "%s not preserved", nm[i]);
      for (int i = 6; i < 16; i++) if (memcmp (iv->out.xmm[i], iv->in.xmm[i], 16)) err (E_FRAME, "xmm%d not preserved", i);
    }
  if (iv->out.gpr[4] != iv->in.gpr[4]) err (E_FRAME, "stack pointer off by %ld", (long)(iv->out.gpr[4] - iv->in.gpr[4]));
  for (int i = 0; i < 16; i++) if (((u64*)iv->canary)[i] != 0xC0DEC0DE5AFE5AFEull) { err (E_FRAME|E_BOUNDS, "caller's stack frame overwritten at +%d", i * 8); break; }
  if (iv->out.rflags & 0x400) err (E_FRAME, "direction flag left set");
  if ((iv->out.mxcsr & 0xffc0) != (IN_MXCSR & 0xffc0)) err (E_FRAME, "MXCSR control %#x -> %#x", IN_MXCSR, iv->out.mxcsr);
  if (iv->out.fcw != IN_FCW) err (E_FRAME, "x87 control word %#x -> %#x", IN_FCW, iv->out.fcw);
  u16 tags = *(u16*)(iv->out.fpu + 8); int n = 0;
  for (int i = 0; i < 8; i++) if ((tags >> (2*i) & 3) != 3) n++;
  if (n != x87) err (E_FRAME|E_RET, "x87 stack depth %d after the call, expected %d", n, x87);
}
static void inv_init (struct inv *iv)
{
  memset (iv, 0, sizeof *iv);
  for (int i = 0; i < 16; i++)
    {
      iv->in.gpr[i] = mix (0x5151 + i) | 0x8000000080000000ull;
      for (int k = 0; k < 16; k++) iv->in.xmm[i][k] = 0x21 + i * 13 + k * 7;
    }
  iv->in.mxcsr = IN_MXCSR; iv->in.fcw = IN_FCW;
}

static ffi_cif cif_mem, cif_copy; static ffi_type *at_mem[MAXA], *at_copy[MAXA];
static int prep_sig (const struct sig *s)
{
  ffi_type **at = at_mem; ffi_cif *c = &cif_mem;
  if (s->guard) { at = (ffi_type **)(slot_w[NSLOT] + SLOTSZ) - s->nargs; }
  for (int i = 0; i < s->nargs; i++) at[i] = mk_ffi (s->args[i]);
  ffi_status st;
  if (s->nfixed >= 0) st = ffi_prep_cif_var (c, s->abi, s->nfixed, s->nargs, mk_ffi (s->ret), at);
  else st = ffi_prep_cif (c, s->abi, s->nargs, mk_ffi (s->ret), at);
  CIF = c;
  if (st != FFI_OK) { err (E_STATUS|E_ARG|E_RET, "preparation refused with status %d", st); return 0; }
  return 1;
}

static u32 ret_decl_size (const T *t) { if (is_int_kind (t->kind)) return 8; return t->size; }
static void check_result (const struct sig *s, u8 *rv)
{
  T *t = s->ret; char h1[200], h2[200];
  if (is_int_kind (t->kind))
    { if (*(u64*)rv != widen (t, RETVAL)) err (E_RET, "result %#lx, expected %#lx", *(u64*)rv, widen (t, RETVAL)); }
  else if (t->size && !same_value (rv, RETVAL, t))
    { hex (h1, RETVAL, t->size); hex (h2, rv, t->size); err (E_RET, "result of type %s: expected %s got %s", t->name, h1, h2); }
}

/* which types the raw interfaces transport by pointer / two slots */
static int raw_slots (const T *t) { if (t->kind == K_STRUCT || t->kind == K_CINT || (t->kind >= K_CF32 && t->kind <= K_CLD)) return 1; return (t->size + 7) / 8; }
static int raw_byref (const T *t) { return t->kind == K_STRUCT || t->kind == K_CINT || (t->kind >= K_CF32 && t->kind <= K_CLD); }
static int jraw_slots (const T *t) { return t->kind == K_U64 || t->kind == K_S64 || t->kind == K_F64 ? 2 : 1; }

/* check a raw buffer against the argument values; slots narrower than 8 hold widened ints */
static void check_raw (const struct sig *s, u8 *raw, int java, int refs_equal, const char *who)
{
  int j = 0;
  for (int i = 0; i < s->nargs; i++)
    {
      T *t = s->args[i]; u8 *q = raw + 8 * j; char h1[200], h2[200];
      if (!java && raw_byref (t))
        {
          u8 *ref = *(u8**)q;
          if ((u64)ref < 4096) err (E_RAW, "%s: raw slot of arg %d (%s) is %p", who, i, t->name, ref);
          else { if (refs_equal && ref != AVR[i]) err (E_RAW, "%s: raw slot of arg %d does not point to the argument", who, i);
                 if (!same_value (ref, AV[i], t)) err (E_RAW, "%s: raw arg %d (%s) has the wrong value", who, i, t->name); }
        }
      else if (is_int_kind (t->kind))
        { if (*(u64*)q != widen (t, AV[i])) err (E_RAW, "%s: raw arg %d (%s) is %#lx, expected %#lx", who, i, t->name, *(u64*)q, widen (t, AV[i])); }
      else if (!same_value (q, AV[i], t))
        { hex (h1, AV[i], t->size); hex (h2, q, t->size); err (E_RAW, "%s: raw arg %d (%s) is %s, expected %s", who, i, t->name, h2, h1); }
      j += java ? jraw_slots (t) : raw_slots (t);
    }
}

static u8 *conf_mem;
static void gen_reset (const struct sig *s)
{
  if (!conf_mem) conf_mem = mmap (NULL, (size_t)MAXA * (BIG + 64), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < s->nargs; i++) { conf_out[i] = conf_mem + (size_t)i * (BIG + 64); memset (conf_out[i], 0x77, s->args[i]->size); }
  conf_n = 0; conf_ret = RETVAL;
}
static void gen_check (const struct sig *s)
{
  char h1[200], h2[200];
  for (int i = 0; i < s->nargs; i++)
    if (!same_value (conf_out[i], AV[i], s->args[i]))
      { hex (h1, AV[i], s->args[i]->size); hex (h2, conf_out[i], s->args[i]->size); err (E_ARG, "%s-compiled callee: arg %d (%s): expected %s got %s", GEN->cc, i, s->args[i]->name, h1, h2); }
}
/* a compiled caller calls the probe or a closure */
static void run_gencaller (const struct sig *s, void *fn)
{
  static u8 rv[BIG] __attribute__((aligned(64))); char h1[200], h2[200];
  if (s->api == A_GENCALLER)
    for (int i = 0; i < s->nargs; i++)
      { u8 *ro; AV[i] = place_obj (i, s->args[i]->size, 0, &ro); AVR[i] = NULL; fill_value (AV[i], s->args[i], seed_of (i), s->pat); }
  fill_value (RETVAL, s->ret, 0xBEEF, s->pat);
  memset (rv, 0x55, s->ret->size + 16);
  HIDDEN_EXPECT = NULL; COUNT = 0; S = s;
  GEN->caller (fn, (void **)AV, rv);
  if (COUNT != 1) err (E_COUNT|E_ARG, "called %d times by the %s-compiled caller", COUNT, GEN->cc);
  if (s->ret->size && s->ret->kind != K_VOID && !same_value (rv, RETVAL, s->ret))
    { hex (h1, RETVAL, s->ret->size); hex (h2, rv, s->ret->size); err (E_RET, "%s-compiled caller got %s result %s, expected %s", GEN->cc, s->ret->name, h2, h1); }
}

static void run_forward (const struct sig *s)
{
  struct inv iv;
  u8 *ro; void **vec = VEC;
  u32 total = 0;
  for (int i = 0; i < s->nargs; i++)
    { AV[i] = place_obj (i, s->args[i]->size, s->guard, &ro); AVR[i] = ro; fill_value (AV[i], s->args[i], seed_of (i), s->pat); total += s->args[i]->size; }
  void **vecw = vec;
  if (s->guard) { vecw = (void **)(slot_w[NSLOT+1] + SLOTSZ) - s->nargs; vec = (void **)(slot_r[NSLOT+1] + SLOTSZ) - s->nargs; }
  for (int i = 0; i < s->nargs; i++) vecw[i] = AVR[i];
  fill_value (RETVAL, s->ret, 0xBEEF, s->pat);
  static u8 resplain[BIG + 2048] __attribute__((aligned(64)));
  u32 rs = ret_decl_size (s->ret);
  u8 *rv, *rlo, *rhi;
  if (s->guard == 1) { rv = res_w + SLOTSZ - rs; rlo = rv - 64; rhi = rv + rs; memset (rlo, 0xEE, 64 + rs); }
  else if (s->guard == 2) { rv = res_w; rlo = rv; rhi = rv + rs + 64; memset (rlo, 0xEE, rs + 64); }
  else { rv = resplain + 1024; rlo = rv - 64; rhi = rv + rs + 64; memset (rlo, 0xEE, rs + 128); }
  RVAL = s->rv ? NULL : rv; HIDDEN_EXPECT = RVAL;
  COUNT = 0; CHAIN = 0xC4A1000000000000ull + (u64)s->nargs * 8;
  inv_init (&iv);
  ffi_cif snap = *CIF; ffi_type *atsnap[MAXA]; memcpy (atsnap, CIF->arg_types, s->nargs * sizeof (void*));
  ffi_type tsnap[MAXA+1]; for (int i = 0; i < s->nargs; i++) tsnap[i] = *CIF->arg_types[i];
  tsnap[s->nargs] = *CIF->rtype;
  static u64 rawbuf_[2 * MAXA * 40 + 64]; static void *back[MAXA + 8];
  u8 *rawp = NULL; size_t rawn = 0;
  if (s->api == A_RAWCALL || s->api == A_HRAW_ || s->api == A_JRAWCALL)
    {
      int java = s->api == A_JRAWCALL, need = 0;
      for (int i = 0; i < s->nargs; i++) need += 8 * (java ? jraw_slots (s->args[i]) : raw_slots (s->args[i]));
      rawn = java ? ffi_java_raw_size (CIF) : ffi_raw_size (CIF);
      if (rawn < (size_t)need) err (E_RAW, "raw size %zu smaller than the raw form (%d)", rawn, need);
      if (java && rawn != (size_t)need) err (E_RAW, "java raw size %zu instead of %d", rawn, need);
      if (rawn > sizeof rawbuf_ - 256 || errcat) { if (!errcat) err (E_RAW, "raw size %zu", rawn); return; }
      rawp = (u8*)rawbuf_ + 64;
      memset (rawbuf_, 0xDA, rawn + 128);
      if (java) ffi_java_ptrarray_to_raw (CIF, vec, (ffi_java_raw *)rawp); else ffi_ptrarray_to_raw (CIF, vec, (ffi_raw *)rawp);
      for (int k = 0; k < 64; k++) if (((u8*)rawbuf_)[k] != 0xDA || rawp[rawn + k] != 0xDA) { err (E_RAW|E_BOUNDS, "raw conversion wrote outside the raw form"); break; }
      check_raw (s, rawp, java, 1, "ptrarray_to_raw");
      for (int i = 0; i < s->nargs + 8; i++) back[i] = (void*)0xD00D;
      if (java) ffi_java_raw_to_ptrarray (CIF, (ffi_java_raw *)rawp, back); else ffi_raw_to_ptrarray (CIF, (ffi_raw *)rawp, back);
      if (back[s->nargs] != (void*)0xD00D) err (E_RAW|E_BOUNDS, "raw_to_ptrarray wrote past the argument array");
      for (int i = 0; i < s->nargs && !errcat; i++)
        {
          if ((u64)back[i] < 0x10000 || !same_value (back[i], AV[i], s->args[i])) err (E_RAW, "raw round trip changed arg %d (%s)", i, s->args[i]->name);
        }
      if (errcat) return;
    }
  void *fn = is_ms (s->abi) ? (void*)probe_ms : (void*)probe_sysv;
  if (s->api == A_GENFWD) { fn = GEN->callee; gen_reset (s); }
  /* target(rdi, rsi, rdx, rcx, r8) */
  iv.in.gpr[7] = (u64)CIF; iv.in.gpr[6] = (u64)fn; iv.in.gpr[2] = (u64)RVAL; iv.in.gpr[1] = (u64)vec; iv.in.gpr[8] = CHAIN;
  switch (s->api)
    {
    case A_GENFWD: case A_HCALL_: case A_CALL: iv.target = (void*)ffi_call; break;
    case A_HGO_: case A_GOCALL: iv.target = (void*)ffi_call_go; break;
    case A_HRAW_: case A_RAWCALL: iv.target = (void*)ffi_raw_call; iv.in.gpr[1] = (u64)rawp; break;
    case A_JRAWCALL: iv.target = (void*)ffi_java_raw_call; iv.in.gpr[1] = (u64)rawp; break;
    }
  S = s;
  invoke (&iv);
  if (s->api == A_GENFWD) { COUNT = conf_n; gen_check (s); }
  if (COUNT != 1) err (E_COUNT|E_ARG, "callee ran %d times", COUNT);
  frame_check (&iv, 0, 0);
  if (!s->rv) check_result (s, rv);
  for (u8 *p = rlo; p < rhi; p++)
    if ((p < rv || p >= rv + (s->rv ? 0 : rs)) && *p != 0xEE) { err (E_BOUNDS|(s->rv ? E_RET : 0), "byte %ld outside the %u-byte result written", (long)(p - rv), rs); break; }
  /* caller-owned memory unchanged */
  static u8 tmp[BIG];
  for (int i = 0; i < s->nargs; i++)
    {
      if (vecw[i] != AVR[i]) err (E_MUT, "argument pointer array entry %d changed", i);
      fill_value (tmp, s->args[i], seed_of (i), s->pat);
      if (memcmp (tmp, AV[i], s->args[i]->size)) err (E_MUT, "argument object %d (%s) changed by the call", i, s->args[i]->name);
      if (memcmp (&tsnap[i], CIF->arg_types[i], sizeof (ffi_type))) err (E_MUT, "type of argument %d changed by the call", i);
    }
  if (memcmp (&snap, CIF, sizeof snap) || memcmp (atsnap, CIF->arg_types, s->nargs * sizeof (void*)) || memcmp (&tsnap[s->nargs], CIF->rtype, sizeof (ffi_type)))
    err (E_MUT, "call description changed by the call");
}

/* ---- closures ---- */
static void handler_common (ffi_cif *cif, void *ret, void *ud)
{
  const struct sig *s = S;
  COUNT++;
  if (s->api != A_GENCLO) check_entry_state (h_rsp, h_flags, h_mxcsr, h_fcw, NULL, "handler");
  if (cif != CIF) err (E_ARG, "handler got call description %p, prepared with %p", cif, CIF);
  if (ud != CUR_UD) err (E_ARG|E_CHAIN, "handler got user pointer %p, prepared with %p", ud, CUR_UD);
  T *t = s->ret;
  if (t->kind != K_VOID)
    {
      if (RMEM && HIDDEN_EXPECT && ret != HIDDEN_EXPECT) { err (E_RET, "handler's result storage %p is not the caller's result memory %p", ret, HIDDEN_EXPECT); return; }
      if (is_int_kind (t->kind) && s->rv == 0) { u64 w = widen (t, RETVAL); memcpy (ret, &w, 8); }
      else if (is_int_kind (t->kind) && t->size < 8) { u64 junk = 0xFEEDFACECAFEBEEFull; memcpy (ret, &junk, 8); memcpy (ret, RETVAL, t->size); }
      else memcpy (ret, RETVAL, t->size);
    }
}
void handler_c (ffi_cif *cif, void *ret, void **args, void *ud)
{
  const struct sig *s = S; char h1[200], h2[200];
  for (int i = 0; i < s->nargs; i++)
    {
      T *t = s->args[i];
      if ((u64)args[i] < 4096) { err (E_ARG, "handler arg %d (%s): pointer %p", i, t->name, args[i]); continue; }
      if ((u64)args[i] & (t->align - 1)) err (E_ARG, "handler arg %d (%s): pointer %p misaligned", i, t->name, args[i]);
      if (!same_value (args[i], AV[i], t))
        { hex (h1, AV[i], t->size); hex (h2, args[i], t->size); err (E_ARG, "handler arg %d (%s): expected %s got %s", i, t->name, h1, h2); }
      sh->args_checked++;
    }
  handler_common (cif, ret, ud);
}
void raw_handler_c (ffi_cif *cif, void *ret, ffi_raw *raw, void *ud) { check_raw (S, (u8*)raw, 0, 0, "raw handler"); handler_common (cif, ret, ud); }
void jraw_handler_c (ffi_cif *cif, void *ret, ffi_java_raw *raw, void *ud) { check_raw (S, (u8*)raw, 1, 0, "java raw handler"); handler_common (cif, ret, ud); }

static ffi_closure *st_clo; static void *st_code;
struct hobj; static void hist_code (void **code, struct inv *iv);
static void run_closure (const struct sig *s)
{
  struct inv iv; u8 *ro;
  static u8 stk[3 << 20] __attribute__((aligned(64)));
  int ms = is_ms (s->abi);
  for (int i = 0; i < s->nargs; i++)
    { AV[i] = place_obj (i, s->args[i]->size, 0, &ro); AVR[i] = ro; fill_value (AV[i], s->args[i], seed_of (i), s->pat); }
  fill_value (RETVAL, s->ret, 0xBEEF, s->pat);
  static u8 resplain[BIG + 2048] __attribute__((aligned(64)));
  u32 rs = s->ret->size; u8 *rv, *rlo, *rhi;
  if (s->guard == 1) { rv = res_w + SLOTSZ - rs; rlo = rv - 64; rhi = rv + rs; memset (rlo, 0xEE, 64 + rs); }
  else if (s->guard == 2) { rv = res_w; rlo = rv; rhi = rv + rs + 64; memset (rlo, 0xEE, rs + 64); }
  else { rv = resplain + 1024; rlo = rv - 64; rhi = rv + rs + 64; memset (rlo, 0xEE, rs + 128); }
  inv_init (&iv);
  u32 nst = (STK + 15) & ~15u;
  for (u32 i = 0; i < nst; i++) stk[i] = 0x3B ^ (u8)(i * 5);
  static u8 refs[3 << 20] __attribute__((aligned(64))); u32 ro_ = 0;
  for (int i = 0; i < s->nargs; i++)
    for (int k = 0; k < PL[i].n; k++)
      {
        struct piece *p = &PL[i].p[k];
        switch (p->where)
          {
          case L_GPR: memcpy (&iv.in.gpr[p->reg], AV[i] + p->off, p->len); break;
          case L_SSE: memcpy (iv.in.xmm[p->reg], AV[i] + p->off, p->len);
            if (ms && s->nfixed >= 0 && i >= s->nfixed) memcpy (&iv.in.gpr[ms_gpr[p->reg]], AV[i], p->len);
            break;
          case L_STACK: memcpy (stk + p->stk, AV[i], p->len); break;
          case L_REF:
            {
              u8 *q = refs + ro_; memcpy (q, AV[i], s->args[i]->size); ro_ += (s->args[i]->size + 31) & ~15u;
              if (p->reg < 4) iv.in.gpr[ms_gpr[p->reg]] = (u64)q; else memcpy (stk + p->stk, &q, 8);
            }
          }
      }
  HIDDEN_EXPECT = RMEM ? rv : NULL;
  if (RMEM) iv.in.gpr[ms ? 1 : 7] = (u64)rv;
  if (s->nfixed >= 0 && !ms) { int n = 0; for (int i = 0; i < s->nargs; i++) for (int k = 0; k < PL[i].n; k++) n += PL[i].p[k].where == L_SSE; iv.in.gpr[0] = (iv.in.gpr[0] & ~0xffull) | n; }
  iv.stack = stk; iv.nstack = nst;
  CUR_UD = (void*)(0x0D000000ull + s->nargs * 16 + s->pat);
  static ffi_go_closure go;
  ffi_status st = FFI_OK; void *code = NULL;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
  switch (s->api)
    {
    case A_GENCALLEE: code = GEN->callee; gen_reset (s); break;
    case A_HCLO_: hist_code (&code, &iv); break;
    case A_GENCLO:
    case A_CLO: st = ffi_prep_closure_loc (st_clo, CIF, (void*)handler_thunk, CUR_UD, st_code); code = st_code; break;
    case A_CLODYN: st = ffi_prep_closure_loc ((ffi_closure *)rwx, CIF, (void*)handler_thunk, CUR_UD, rwx); code = rwx; break;
    case A_CLOOLD: st = ffi_prep_closure ((ffi_closure *)(rwx + 256), CIF, (void*)handler_thunk, CUR_UD); code = rwx + 256; break;
    case A_GOCLO: st = ffi_prep_go_closure (&go, CIF, (void*)handler_thunk); code = go.tramp; CUR_UD = &go; iv.in.gpr[10] = (u64)&go; break;
    case A_RAWCLO: st = ffi_prep_raw_closure_loc ((ffi_raw_closure *)st_clo, CIF, (void*)raw_handler_thunk, CUR_UD, st_code); code = st_code; break;
    case A_RAWDYN: st = ffi_prep_raw_closure ((ffi_raw_closure *)(rwx + 512), CIF, (void*)raw_handler_thunk, CUR_UD); code = rwx + 512; break;
    case A_JRAWCLO: st = ffi_prep_java_raw_closure_loc ((ffi_java_raw_closure *)st_clo, CIF, (void*)jraw_handler_thunk, CUR_UD, st_code); code = st_code; break;
    case A_JRAWDYN: st = ffi_prep_java_raw_closure ((ffi_java_raw_closure *)(rwx + 768), CIF, (void*)jraw_handler_thunk, CUR_UD); code = rwx + 768; break;
    }
#pragma GCC diagnostic pop
  if (st != FFI_OK) { err (E_STATUS|E_ARG|E_RET|E_CHAIN|E_RAW, "closure preparation refused with status %d", st); return; }
  COUNT = 0; S = s; iv.target = code;
  if (s->api == A_GENCLO) { run_gencaller (s, code); return; }
  invoke (&iv);
  if (s->api == A_GENCALLEE) { COUNT = conf_n; gen_check (s); }
  if (COUNT != 1) { err (E_COUNT|E_ARG, "handler ran %d times", COUNT); return; }
  int nx = 0; for (int k = 0; k < RP.n; k++) nx += RP.p[k].where == L_X87;
  frame_check (&iv, ms, nx);
  T *t = s->ret; char h1[200], h2[200];
  if (RMEM)
    {
      if (iv.out.gpr[0] != (u64)rv) err (E_RET, "rax is %#lx, not the hidden result address %p", iv.out.gpr[0], rv);
      if (!same_value (rv, RETVAL, t)) { hex (h1, RETVAL, t->size); hex (h2, rv, t->size); err (E_RET, "result in memory: expected %s got %s", h1, h2); }
    }
  else
    {
      u8 got[64]; memset (got, 0, sizeof got);
      for (int k = 0; k < RP.n; k++)
        {
          struct piece *p = &RP.p[k];
          if (p->where == L_GPR) memcpy (got + p->off, &iv.out.gpr[p->reg], p->len);
          else if (p->where == L_SSE) memcpy (got + p->off, iv.out.xmm[p->reg], p->len);
          else memcpy (got + p->off, iv.out.fpu + 28 + 10 * p->reg, 10);
        }
      if (t->size && !same_value (got, RETVAL, t)) { hex (h1, RETVAL, t->size); hex (h2, got, t->size); err (E_RET, "native caller got %s result %s, expected %s", t->name, h2, h1); }
      if (!ms && s->api != A_GENCALLEE && is_int_kind (t->kind) && t->size < 4 && (u32)iv.out.gpr[0] != (u32)widen (t, RETVAL))
        err (E_RET, "%s result register %#lx not widened to %#lx", t->name, iv.out.gpr[0], widen (t, RETVAL));
    }
  for (u8 *p = rlo; p < rhi; p++)
    if ((p < rv || p >= rv + (RMEM ? rs : 0)) && *p != 0xEE) { err (E_BOUNDS, "byte %ld outside the %u-byte result memory written", (long)(p - rv), rs); break; }
}

static int run_case (const struct sig *s)
{
  errcat = 0; errmsg[0] = 0;
  model_sig (s);
  if (prep_sig (s))
    {
      if (s->api < A_NFWD || s->api == A_GENFWD) run_forward (s);
      else if (s->api == A_GENCALLER) run_gencaller (s, is_ms (s->abi) ? (void*)probe_ms : (void*)probe_sysv);
      else run_closure (s);
    }
  return errcat;
}

/* ------------------------------------------------------------------ */
/* Universe of types */
static T **U; static int NU; static T *R[64]; static int NR; static int thorough;
static void addu (T *t)
{
  static u8 *in; static int cap_; if (t->id >= cap_) { in = realloc (in, t->id + 4096); memset (in + cap_, 0, t->id + 4096 - cap_); cap_ = t->id + 4096; }
  if (in[t->id] || t->size > BIG) return;
  in[t->id] = 1;
  U = realloc (U, (NU + 1) * sizeof *U); U[NU++] = t;
}
static const char *SC[] = { "u1","s1","u2","s2","u4","s4","u8","s8","p","f","d","l","F","D","L","Cs4","Cu1","Cs2","Cs8","Cu4" };
static void build_universe (void)
{
  static const char *B[] = { "u1","u2","u4","u8","f","d","l" };
  static const char *B4[] = { "u1","u4","f","d" };
  static const char *B5[] = { "u1","u4","u8","f","d" };
  static const char *X5[] = { "u1","s2","u4","f" };
  for (unsigned i = 0; i < sizeof SC / sizeof *SC; i++) addu (ty (SC[i]));
  for (int a = 0; a < 7; a++)
    {
      addu (tyf ("{%s}", B[a]));
      for (int b = 0; b < 7; b++)
        {
          addu (tyf ("{%s,%s}", B[a], B[b]));
          for (int c = 0; c < 7; c++)
            {
              addu (tyf ("{%s,%s,%s}", B[a], B[b], B[c]));
              for (int d = 0; d < 7; d++) addu (tyf ("{%s,%s,%s,%s}", B[a], B[b], B[c], B[d]));
            }
        }
    }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 4; c++) for (int d = 0; d < 4; d++)
    {
      addu (tyf ("{%s,%s,%s,%s}", B4[a], B4[b], B4[c], B4[d]));
      for (int e = 0; e < 4; e++) addu (tyf ("{%s,%s,%s,%s,%s}", X5[a], X5[b], X5[c], X5[d], X5[e]));
    }
  for (int a = 0; a < 7; a++) for (int n = 1; n <= (a == 0 ? 40 : a < 2 ? 20 : a == 6 ? 5 : 18); n++) addu (tyf ("{%d*%s}", n, B[a]));
  for (int n = 1; n <= 10; n++) { addu (tyf ("{%d*f,u1}", n)); addu (tyf ("{u1,%d*f}", n)); addu (tyf ("{%d*u1,d}", n)); addu (tyf ("{%d*u1,f}", n)); addu (tyf ("{f,%d*u1}", n)); addu (tyf ("{%d*u2,f,f}", n)); }
  addu (tyf ("{64*u1}")); addu (tyf ("{65*u1}")); addu (tyf ("{70*u8}")); addu (tyf ("{33*f}")); addu (ty ("{33*{16*u8}}")); addu (ty ("{40*{60*u8}}")); addu (ty ("{71*{51*u1}}")); addu (ty ("{2*{66*u1},u2}"));
  /* complex members */
  static const char *CX[] = { "{F}","{f,F}","{F,f}","{F,F}","{D}","{u4,F}","{u1,F}","{F,u4}","{F,u1}","{L}","{D,u1}","{u1,D}","{Cs4}","{Cs4,f}","{f,Cs4}","{Cs4,Cs4}","{Cu1,f}","{Cs2,d}","{Cs8}","{f,f,F}","{F,d}","{d,F}","{s4,F,s4}","{{F},f}","{{f,F},f}","{f,{F,f}}" };
  for (unsigned i = 0; i < sizeof CX / sizeof *CX; i++) addu (ty (CX[i]));
  /* nested */
  for (int a = 0; a < 5; a++)
    {
      addu (tyf ("{{%s}}", B5[a])); addu (tyf ("{{{%s}}}", B5[a]));
      for (int b = 0; b < 5; b++)
        {
          addu (tyf ("{{%s},%s}", B5[a], B5[b])); addu (tyf ("{%s,{%s}}", B5[a], B5[b])); addu (tyf ("{{%s},{%s}}", B5[a], B5[b])); addu (tyf ("{{%s,%s}}", B5[a], B5[b]));
          for (int c = 0; c < 5; c++)
            {
              addu (tyf ("{{%s,%s},%s}", B5[a], B5[b], B5[c])); addu (tyf ("{%s,{%s,%s}}", B5[a], B5[b], B5[c]));
              addu (tyf ("{%s,{%s,{%s}}}", B5[a], B5[b], B5[c])); addu (tyf ("{{{%s},%s},%s}", B5[a], B5[b], B5[c]));
              if (a != 2 && b != 2 && c != 2) for (int d = 0; d < 5; d++) if (d != 2) { addu (tyf ("{{%s,%s},{%s,%s}}", B5[a], B5[b], B5[c], B5[d])); addu (tyf ("{%s,{%s,{%s,%s}}}", B5[a], B5[b], B5[c], B5[d])); addu (tyf ("{{{%s,%s},%s},%s}", B5[a], B5[b], B5[c], B5[d])); }
            }
        }
    }
  addu (ty ("{l,u1}")); addu (ty ("{{l}}")); addu (ty ("{{l},u1}")); addu (ty ("{u1,{l}}"));
  /* representative alphabet: one type per marshaller-relevant behaviour */
  static const char *RR[] = { "s4","d","{u8,u8}","{d,d}","{u8,d}","{d,u8}","{3*u8}","l","s1","f","{u1,u2}","{3*f}","p","F","{l}","D","u2","{5*u1}" };
  for (unsigned i = 0; i < sizeof RR / sizeof *RR; i++) R[NR++] = ty (RR[i]);
}

/* ------------------------------------------------------------------ */
/* Enumeration with sharding */
static int W, w; static u64 idx; static int stop_flag;
static void record_failure (int cat, const char *cs, const char *msg)
{
  if (sh->nfail < 8) { sh->failcat[sh->nfail] = cat; snprintf (sh->fail[sh->nfail], sizeof sh->fail[0], "%s\n# %s", cs, msg); sh->nfail++; }
  sh->fails++;
  if (sh->nfail >= 3) stop_flag = 1;
}
static void emit (struct sig *s)
{
  u64 my = idx++;
  if (stop_flag || my % W != (u64)w) return;
  sig_text (s, sh->cur, sizeof sh->cur);
  sh->runs++; account (s);
  if (sh->nsample < 4 && (my / W) % 997 == 5) { snprintf (sh->sample[sh->nsample], 1200, "%s", sh->cur); sh->nsample++; }
  int e = run_case (s); sh->mask = want_mask;
  if (e & want_mask) record_failure (e, sh->cur, errmsg);
}

/* abstract marshaller state -> shortest prefix, by breadth-first search over R */
struct bst { int hid, g, s, k; int n; T *pre[40]; };
static struct bst *BS; static int NBS;
static int absk (u32 stk) { return stk == 0 ? 0 : stk % 16 ? 1 : 2; }
static void bfs_states (int ms)
{
  NBS = 0; BS = realloc (BS, 4096 * sizeof *BS);
  for (int hid = 0; hid < 2; hid++)
    { memset (&BS[NBS], 0, sizeof *BS); BS[NBS].hid = hid; BS[NBS].g = hid; NBS++; }
  for (int q = 0; q < NBS; q++)
    for (int r = 0; r < NR; r++)
      {
        struct bst nb = BS[q]; if (nb.n >= 36) continue;
        struct mst m; struct place pl;
        nb.pre[nb.n++] = R[r];
        T *ret = nb.hid ? ty ("{3*u8}") : ty ("v");
        if (ms) ms_start (&m, ret); else sysv_start (&m, ret);
        for (int i = 0; i < nb.n; i++) if (ms) ms_arg (&m, nb.pre[i], &pl); else sysv_arg (&m, nb.pre[i], &pl);
        nb.g = m.g; nb.s = m.s; nb.k = ms ? 0 : absk (m.stk);
        if (ms && nb.g > 7) continue;
        int dup = 0;
        for (int i = 0; i < NBS; i++) if (BS[i].hid == nb.hid && BS[i].g == nb.g && BS[i].s == nb.s && BS[i].k == nb.k) { dup = 1; break; }
        if (!dup && NBS < 4096) BS[NBS++] = nb;
      }
}
static int jtype (const T *t) { return t->kind >= K_U8 && t->kind <= K_F64; }
static int sig_ok (const struct sig *s)
{
  if (s->api == A_JRAWCALL || s->api == A_JRAWCLO || s->api == A_JRAWDYN)
    {
      for (int i = 0; i < s->nargs; i++) if (!jtype (s->args[i])) return 0;
      if (s->ret->kind != K_VOID && !jtype (s->ret)) return 0;
    }
  return 1;
}
static void emit_ok (struct sig *s) { if (sig_ok (s)) emit (s); }

/* states x types */
static void en_states (struct sig *s, int tails)
{
  static const char *TL[] = { "s2","d","{u4,d}","u8" };
  bfs_states (is_ms (s->abi));
  for (int b = 0; b < NBS; b++)
    for (int u = 0; u < NU; u++)
      {
        memcpy (s->args, BS[b].pre, BS[b].n * sizeof (T*));
        s->nargs = BS[b].n; s->args[s->nargs++] = U[u];
        for (int k = 0; k < tails; k++) s->args[s->nargs++] = ty (TL[(k + u + b) % 4]);
        s->ret = BS[b].hid ? ty ("{3*u8}") : ty ("v");
        s->pat = (b + u) % 4; s->nfixed = -1;
        emit_ok (s);
      }
}
/* all lists of length <= L over the first nr representatives */
static void en_lists (struct sig *s, int L, int nr, const char *ret)
{
  int c[16] = { 0 };
  s->nfixed = -1; s->ret = ty (ret);
  for (int n = 0; n <= L; n++)
    {
      memset (c, 0, sizeof c);
      for (;;)
        {
          for (int i = 0; i < n; i++) s->args[i] = R[c[i]];
          s->nargs = n; s->pat = (c[0] + n) % 4; emit_ok (s);
          if (stop_flag) return;
          int i = 0; while (i < n && ++c[i] == nr) c[i++] = 0;
          if (i == n) break;
        }
    }
}
/* long lists */
static void en_long (struct sig *s, int N)
{
  static const char *RT[] = { "{u8,d}","v","{d,u8}","l","s1","{d,d}","D","F","L","u4","{u8,u8}","{f}","{4*u8}","s2","{3*f}" };
  static const int PN[] = { 25,26,27,28,29,30,31,32,33,34,35,36,39,40,41,47,48,49,50,51,63,64,65,66,79,80,81,95,96,97,99,100,101,127,128,129,130,191,192,193,199,200,201,254,255,256,257,258,288,289,290 };
  s->nfixed = -1;
  for (int r = 0; r < NR; r++)
    for (unsigned k = 0; k < sizeof PN / sizeof *PN; k++)
      {
        if (PN[k] > (N < 100 ? 130 : N)) continue;
        for (int i = 0; i < PN[k]; i++) s->args[i] = R[r];
        s->nargs = PN[k]; s->pat = k % 4; s->ret = ty (RT[(r + k) % 15]); emit_ok (s);
      }
  for (int h = 0; h < 3; h++)
    for (int r = 0; r < NR; r++)
      for (int q = 0; q < NR; q++)
        for (int n = 1; n <= N; n += n < 24 ? 1 : n < 64 ? 8 : 37)
          {
            if (q != r && n > 20 && n % 3 && h < 2) continue;
            for (int i = 0; i < n; i++) s->args[i] = i & 1 ? R[q] : R[r];
            s->nargs = n; s->pat = n % 4; s->ret = ty (h == 0 ? "d" : h == 1 ? "{3*u8}" : RT[(n + r + 3 * q) % 15]);
            emit_ok (s);
          }
}
/* argument areas from a few hundred bytes to more than a megabyte, made of large structures between scalars */
static void en_big (struct sig *s)
{
  static const char *BT[] = { "{40*{60*u8}}", "{33*{16*u8}}", "{70*u8}", "{71*{51*u1}}" };
  static const char *PR[][5] = { { 0 }, { "s4","d",0 }, { "u8","u8","u8","{d,u8}",0 } };
  static const int NN[] = { 1,2,3,4,5,7,8,13,14,15,16,17,31,32,33,56,60,116,117,118,120,240,280 };
  s->nfixed = -1; s->guard = 0;
  for (int t = 0; t < 4; t++)
    for (unsigned n = 0; n < sizeof NN / sizeof *NN; n++)
      for (int c = 0; c < 3; c++)
        for (int h = 0; h < 2; h++)
          {
            T *x = ty (BT[t]); int k = 0;
            if ((u64) x->size * NN[n] > 1500000) continue;
            s->nargs = 0; for (int i = 0; PR[c][i]; i++) s->args[s->nargs++] = ty (PR[c][i]);
            for (int i = 0; i < NN[n]; i++) { s->args[s->nargs++] = x; if (c == 2 && i % 9 == 4) s->args[s->nargs++] = ty ("s2"); if (s->nargs > MAXA - 6) { k = 1; break; } }
            if (k) continue;
            s->args[s->nargs++] = ty ("u8"); s->args[s->nargs++] = ty ("d"); s->args[s->nargs++] = ty ("{u8,d}"); s->args[s->nargs++] = ty ("F");
            s->ret = ty (h ? "{3*u8}" : "u4"); s->pat = (n + c) % 4; emit_ok (s);
            if (stop_flag) return;
          }
}
static void en_variadic (struct sig *s, int L)
{
  static const char *V[] = { "s4","u8","d","p","{u8,d}","{d,d}","{3*u8}","l","{u1,u2}","D","F" };
  int nv = 11, c[16];
  for (int h = 0; h < 2; h++)
    for (int n = 1; n <= L; n++)
      {
        memset (c, 0, sizeof c);
        for (;;)
          {
            for (int i = 0; i < n; i++) s->args[i] = ty (V[c[i]]);
            s->nargs = n; s->ret = ty (h ? "{3*u8}" : "s4"); s->pat = n % 4;
            for (int f = 1; f <= n; f++) { s->nfixed = f; emit_ok (s); }
            if (stop_flag) return;
            int i = 0; while (i < n && ++c[i] == nv) c[i++] = 0;
            if (i == n) break;
          }
      }
  /* many vector registers in a variadic call */
  for (int n = 1; n <= 20; n++) for (int k = 0; k <= n; k++)
    { for (int i = 0; i < n; i++) s->args[i] = ty (i < k ? "d" : "s4"); s->nargs = n; s->nfixed = 1; s->ret = ty ("v"); s->pat = 0; emit_ok (s); }
  s->nfixed = -1;
}
/* result types x argument contexts */
static void en_rets (struct sig *s, int full)
{
  static const char *CT[][9] = { { 0 }, { "s4",0 }, { "d",0 }, { "s1","f","{u8,d}",0 },
    { "u8","u8","u8","u8","u8","u8","u8",0 }, { "d","d","d","d","l","{d,d}","s2",0 }, { "{3*u8}","d","{4*u8}","u1",0 } };
  s->nfixed = -1;
  for (int u = -1; u < NU; u++)
    for (int c = 0; c < 7; c++)
      {
        if (!full && c > 1 && u >= 24 && (u % 5)) continue;
        s->nargs = 0; for (int i = 0; CT[c][i]; i++) s->args[s->nargs++] = ty (CT[c][i]);
        s->ret = u < 0 ? ty ("v") : U[u];
        for (s->pat = 0; s->pat < 4; s->pat++)
          for (s->rv = 0; s->rv < 2; s->rv++)
            emit_ok (s);
        s->rv = 0;
      }
}
static void en_ret_states (struct sig *s)
{
  /* every representative result against every prefix state: result flags interact with vector-argument flags */
  bfs_states (is_ms (s->abi));
  static const char *RT[] = { "s1","u2","s4","u8","f","d","l","F","D","L","{u1,u2}","{f}","{d}","{u8,d}","{d,u8}","{d,d}","{u8,u8}","{3*u8}","{l}","{3*f}","{5*u1}" };
  s->nfixed = -1;
  for (int b = 0; b < NBS; b++) for (unsigned r = 0; r < sizeof RT / sizeof *RT; r++) for (s->rv = 0; s->rv < 2; s->rv++)
    { memcpy (s->args, BS[b].pre, BS[b].n * sizeof (T*)); s->nargs = BS[b].n; s->ret = ty (RT[r]); s->pat = (b + r) % 4; emit_ok (s); }
  s->rv = 0;
}

/* every result type against every prefix state */
static void en_ret_all (struct sig *s)
{
  bfs_states (is_ms (s->abi));
  s->nfixed = -1; s->rv = 0;
  for (int b = 0; b < NBS; b++) for (int u = 0; u < NU; u++)
    { memcpy (s->args, BS[b].pre, BS[b].n * sizeof (T*)); s->nargs = BS[b].n; s->ret = U[u]; s->pat = (b + u) % 4; emit_ok (s); }
}

#include "hist.h"
static void hist_code (void **code, struct inv *iv)
{
  *code = HSTYLE == STYLE_GO ? HCUR->go.tramp : HCUR->code; CUR_UD = HSTYLE == STYLE_GO ? (void*)&HCUR->go : (void*)HCUR->ud;
  if (HSTYLE == STYLE_GO) iv->in.gpr[10] = (u64)&HCUR->go;
}
/* Types that differ in size or in what their four-byte units hold */
static T **Q; static int NQ;
static void build_reps (void)
{
  static u64 *keys;
  if (NQ) return;
  for (int u = 0; u < NU; u++)
    {
      T *t = U[u]; u64 k = 0;
      if (t->kind != K_STRUCT && t->kind != K_CINT && (t->kind < K_CF32 || t->kind > K_CLD)) k = 1000 + t->kind;
      else if (t->size > 16) k = 2000 + (t->size > 32) + 2 * (t->size % 16) + 64 * t->align;
      else
        {
          int cx = t->kind != K_STRUCT;
          for (int i = 0; i < t->nleaf; i++)
            for (int b = 0; b < t->leaf[i].size; b += 4)
              {
                int o = (t->leaf[i].off + b) / 4, c = t->leaf[i].cls == C_INT ? 1 : t->leaf[i].cls == C_X87 ? 2 : 4;
                k |= (u64) c << (4 * o);
              }
          k |= (u64) t->size << 40 | (u64) t->align << 48 | (u64) cx << 56;
        }
      int dup = 0; for (int i = 0; i < NQ && !dup; i++) dup = keys[i] == k;
      if (dup) continue;
      Q = realloc (Q, (NQ + 1) * sizeof *Q); keys = realloc (keys, (NQ + 1) * sizeof *keys); keys[NQ] = k; Q[NQ++] = t;
    }
}
/* every type twice and three times in one list, and all pairs of representatives, after no and after some arguments */
static void en_pairs (struct sig *s, const char *ret)
{
  static const char *PR[][4] = { { 0 }, { "s4","d",0 }, { "u8","u8","u8",0 } };
  build_reps ();
  s->nfixed = -1; s->ret = ty (ret);
  for (int u = 0; u < NU; u++)
    for (int n = 2; n <= 3; n++)
      { for (int i = 0; i < n; i++) s->args[i] = U[u]; s->nargs = n; s->pat = (u + n) % 4; emit_ok (s); }
  for (int c = 0; c < 3; c++)
    for (int a = 0; a < NQ; a++)
      for (int b = 0; b < NQ; b++)
        {
          s->nargs = 0; for (int i = 0; PR[c][i]; i++) s->args[s->nargs++] = ty (PR[c][i]);
          s->args[s->nargs++] = Q[a]; s->args[s->nargs++] = Q[b];
          s->pat = (a + b) % 4; emit_ok (s);
          if (stop_flag) return;
        }
}
/* all ordered pairs of types */
static void en_all_pairs (struct sig *s, const char *ret)
{
  s->nfixed = -1; s->ret = ty (ret); s->nargs = 2;
  for (int a = 0; a < NU; a++)
    for (int b = 0; b < NU; b++)
      { s->args[0] = U[a]; s->args[1] = U[b]; s->pat = (a + b) % 4; emit_ok (s); if (stop_flag) return; }
}
/* every result type with one argument, and two, of every representative type */
static void en_ret_args (struct sig *s)
{
  build_reps ();
  s->nfixed = -1; s->rv = 0;
  for (int u = 0; u < NU; u++)
    for (int q = 0; q < NQ; q++)
      for (s->nargs = 1; s->nargs < 3; s->nargs++)
        { s->args[0] = Q[q]; s->args[1] = Q[(q + u) % NQ]; s->ret = U[u]; s->pat = (q + u) % 4; emit_ok (s); if (stop_flag) return; }
}
static const int abis_ms[] = { FFI_EFI64, FFI_GNUW64 };

static void explore (const char *mode)
{
  struct sig s; memset (&s, 0, sizeof s); s.nfixed = -1;
  const int T_ = 1, X = thorough; (void) X;
  if (!strcmp (mode, "P01"))
    {
      want_mask = E_ARG|E_AL|E_ALIGN|E_STATUS|E_COUNT;
      s.api = A_CALL; s.abi = FFI_UNIX64;
      en_states (&s, 2); if (T_) { en_states (&s, 0); en_states (&s, 4); }
      en_pairs (&s, "v");
      en_lists (&s, X + (T_ ? 5 : 4), T_ ? NR : 12, "v"); en_lists (&s, X + (T_ ? 5 : 3), T_ ? NR : NR, "{3*u8}");
      if (T_) en_lists (&s, 7, 6, "v");
      en_long (&s, T_ ? 290 : 130); en_variadic (&s, T_ ? 5 : 3); en_big (&s); if (X) en_all_pairs (&s, "v");
    }
  else if (!strcmp (mode, "P02"))
    {
      want_mask = E_RET|E_STATUS;
      s.api = A_CALL; s.abi = FFI_UNIX64; en_rets (&s, 1); en_ret_states (&s); en_ret_all (&s); en_ret_args (&s);
      if (T_) { en_lists (&s, 4 + X, NR, "l"); en_lists (&s, 4 + X, NR, "{d,u8}"); en_lists (&s, 4 + X, NR, "s1"); en_lists (&s, 4 + X, NR, "{3*u8}"); }
    }
  else if (!strcmp (mode, "P03"))
    {
      want_mask = E_ARG|E_STATUS|E_COUNT|E_ALIGN; s.abi = FFI_UNIX64;
      static const int A[] = { A_CLO, A_CLODYN, A_CLOOLD };
      for (int a = 0; a < 3; a++)
        {
          s.api = A[a];
          if (a < 2 || T_) en_states (&s, 2);
          en_pairs (&s, "v");
          en_lists (&s, X + (T_ ? 5 : a == 0 ? 4 : 3), T_ ? 14 : 12, a & 1 ? "v" : "{3*u8}"); en_lists (&s, 3, NR, a & 1 ? "{3*u8}" : "l");
          en_long (&s, T_ ? 290 : 100); en_big (&s); if (X && a == 0) { en_all_pairs (&s, "v"); en_lists (&s, 7, 14, "{3*u8}"); } if (a == 0 || T_) en_variadic (&s, T_ ? 4 : 2);
        }
    }
  else if (!strcmp (mode, "P04"))
    {
      want_mask = E_RET|E_STATUS|E_COUNT; s.abi = FFI_UNIX64;
      static const int A[] = { A_CLO, A_CLODYN, A_CLOOLD };
      for (int a = 0; a < 3; a++) { s.api = A[a]; en_rets (&s, a == 0 || T_); en_ret_states (&s); if (X || a == 0) { en_ret_all (&s); en_ret_args (&s); } }
      if (T_) { s.api = A_CLO; en_lists (&s, 4 + X, NR, "l"); en_lists (&s, 4 + X, NR, "{d,u8}"); en_lists (&s, 4 + X, NR, "s1"); en_lists (&s, 4 + X, NR, "{3*u8}"); }
    }
  else if (!strcmp (mode, "P05") || !strcmp (mode, "P06"))
    {
      int clo = mode[2] == '6';
      want_mask = E_ARG|E_ALIGN|E_RET|E_STATUS|E_COUNT;
      for (int a = 0; a < 2; a++)
        for (int k = 0; k < (clo ? 2 : 1); k++)
          {
            s.abi = abis_ms[a]; s.api = clo ? (k ? A_CLODYN : A_CLO) : A_CALL;
            en_states (&s, 2); if (T_) en_states (&s, 4);
            en_pairs (&s, "v");
            en_lists (&s, X + (T_ ? 5 : 4), T_ ? 16 : 10, "v"); en_lists (&s, X + (T_ ? 4 : 3), NR, "{3*u8}");
            en_long (&s, T_ ? 290 : 60); en_variadic (&s, T_ ? 4 : 2); en_big (&s); if (X && !k) en_all_pairs (&s, "v"); if (X) en_lists (&s, 7, 12, "v"); if (X) en_ret_args (&s);
            en_rets (&s, 1); en_ret_states (&s);
          }
    }
  else if (!strcmp (mode, "P07"))
    {
      want_mask = E_MUT|E_BOUNDS;
      static const int AB[] = { FFI_UNIX64, FFI_EFI64, FFI_GNUW64 };
      for (int a = 0; a < 3; a++)
        for (s.guard = 1; s.guard <= 2; s.guard++)
          {
            s.abi = AB[a];
            s.api = A_CALL; en_states (&s, 1); en_rets (&s, 1); en_pairs (&s, "v"); en_lists (&s, X + (T_ ? 4 : 3), T_ ? NR : 12, "{5*u1}"); en_variadic (&s, 2);
            if (T_) en_ret_states (&s);
            s.api = A_GOCALL; en_lists (&s, 2, NR, "{5*u1}"); en_rets (&s, 0);
            s.api = A_RAWCALL; en_lists (&s, 2, NR, "{5*u1}"); en_rets (&s, 0);
            s.api = A_JRAWCALL; en_lists (&s, 3, NR, "s2");
            s.api = A_CLO; en_rets (&s, 1); en_lists (&s, 3, NR, "{3*u8}"); if (s.guard == 1) en_pairs (&s, "v");
            s.api = A_CLODYN; en_rets (&s, 0);
            s.api = A_GOCLO; en_rets (&s, 0);
          }
    }
  else if (!strcmp (mode, "P08"))
    {
      want_mask = E_FRAME|E_ENTRY|E_ALIGN;
      static const int AB[] = { FFI_UNIX64, FFI_EFI64, FFI_GNUW64 };
      static const int AP[] = { A_CALL, A_CLO, A_CLODYN, A_GOCALL, A_GOCLO, A_RAWCALL, A_RAWCLO, A_JRAWCALL, A_JRAWCLO };
      for (int a = 0; a < 3; a++)
        for (int p = 0; p < 9; p++)
          {
            s.abi = AB[a]; s.api = AP[p];
            if (p < 3 || T_) en_states (&s, 1);
            en_rets (&s, p < 2 || T_); en_ret_states (&s); en_lists (&s, X + (T_ ? 4 : 3), T_ ? NR : 12, "{5*u1}"); en_lists (&s, 2, NR, "l"); en_long (&s, T_ ? 290 : 60); en_variadic (&s, T_ ? 3 : 2); if (p < 2 || p == 3) en_big (&s);
          }
    }
  else if (!strcmp (mode, "P16") || !strcmp (mode, "P17"))
    {
      int java = mode[2] == '7';
      want_mask = E_ARG|E_RET|E_RAW|E_STATUS|E_COUNT|E_CHAIN;
      int na = java && !T_ ? 3 : 3; static const int AB[] = { FFI_UNIX64, FFI_GNUW64, FFI_EFI64 };
      for (int a = 0; a < na; a++)
        for (int p = 0; p < 3; p++)
          {
            s.abi = AB[a]; s.api = java ? (p == 0 ? A_JRAWCALL : p == 1 ? A_JRAWCLO : A_JRAWDYN) : (p == 0 ? A_RAWCALL : p == 1 ? A_RAWCLO : A_RAWDYN);
            if (a == 0 || T_) en_states (&s, 2);
            en_pairs (&s, "v");
            en_rets (&s, T_); if (a == 0 || T_) en_ret_states (&s);
            if (!java) { en_lists (&s, X + (T_ ? 4 : 3), NR, "{3*u8}"); en_long (&s, T_ ? 200 : 40); en_variadic (&s, 2); en_big (&s); }
            else
              {
                T *save[64]; int nsave = NR; memcpy (save, R, sizeof R); NR = 0;
                static const char *J[] = { "s4","d","s8","f","u1","s1","u2","s2","p","u4","u8" };
                for (int i = 0; i < 11; i++) R[NR++] = ty (J[i]);
                en_lists (&s, X + (T_ ? 5 : 4), T_ ? 9 : 8, "s8"); en_lists (&s, 3, NR, "f"); en_long (&s, T_ ? 200 : 40);
                for (int r = 0; r < NR; r++) en_lists (&s, 2, NR, J[r]);
                memcpy (R, save, sizeof R); NR = nsave;
              }
          }
    }
  else if (!strcmp (mode, "P18"))
    {
      want_mask = E_ARG|E_RET|E_CHAIN|E_STATUS|E_COUNT;
      static const int AB[] = { FFI_UNIX64, FFI_GNUW64, FFI_EFI64 };
      for (int a = 0; a < 3; a++)
        for (int p = 0; p < 2; p++)
          {
            s.abi = AB[a]; s.api = p ? A_GOCLO : A_GOCALL;
            en_states (&s, 2); en_pairs (&s, "v"); en_rets (&s, T_ || a == 0); en_ret_states (&s); en_lists (&s, X + (T_ ? 4 : 3), NR, "{3*u8}"); en_lists (&s, X + (T_ ? 5 : 3), 12, "l"); en_long (&s, T_ ? 200 : 40); en_variadic (&s, T_ ? 3 : 2); en_big (&s);
          }
    }
  else if (!strcmp (mode, "P20")) { want_mask = ~0; hist_explore (thorough ? 7 : 6); pair_explore (thorough ? 1000 : 150); }
  else { fprintf (stderr, "unknown mode %s\n", mode); exit (3); }
}

/* ---- conformance of the model to real compilers ---- */
static const char *cty (T *t)
{ static char b[16][64]; static int k; if (t->kind < K_CINT) return KI[t->kind].cname; k = (k + 1) % 16; if (t->kind == K_CINT) snprintf (b[k], 64, "_Complex %s", KI[t->f[0]->kind].cname); else snprintf (b[k], 64, "struct S%d", t->id); return b[k]; }
static u8 *printed;
static void print_type (T *t)
{
  if (t->kind != K_STRUCT || printed[t->id]) return;
  printed[t->id] = 1;
  for (int i = 0; i < t->n; i++) print_type (t->f[i]);
  printf ("%s {", cty (t)); for (int i = 0; i < t->n; i++) printf ("%s f%d;", cty (t->f[i]), i); puts ("};");
}
static int gsh, gnsh, gk; static u64 gidx; static int gmode; static char **gsig;
static int ms_ldlike (const T *t) { return t->has_ld || t->kind == K_CINT || (t->kind >= K_CF32 && t->kind <= K_CLD); }
static void gencode_one (struct sig *s)
{
  char b[6000];
  if (gidx++ % gnsh != (u64)gsh) return;
  if (gmode && s->abi != FFI_UNIX64)    /* clang targets only GNU/Linux flavours of the convention for these */
    { if (ms_ldlike (s->ret)) return; for (int i = 0; i < s->nargs; i++) if (ms_ldlike (s->args[i])) return; }
  if (!gmode && s->abi != FFI_UNIX64 && s->nfixed >= 0)   /* gcc's ms va_arg does not follow the reference of a by-reference argument */
    for (int i = s->nfixed; i < s->nargs; i++) if (!ms_byval (s->args[i])) return;
  print_type (s->ret); for (int i = 0; i < s->nargs; i++) print_type (s->args[i]);
  const char *at = s->abi == FFI_UNIX64 ? "" : "__attribute__((ms_abi))"; int var = s->nfixed >= 0;
  printf ("static %s %s ce%d (", cty (s->ret), at, gk);
  for (int i = 0; i < (var ? s->nfixed : s->nargs); i++) printf ("%s%s a%d", i ? "," : "", cty (s->args[i]), i);
  printf (var ? ",...) {" : s->nargs ? ") {" : "void) {");
  if (var)
    {
      int ms = *at; const char *m = ms ? "__builtin_ms_" : "__builtin_";
      printf ("%sva_list ap; %sva_start (ap, a%d);", m, m, s->nfixed - 1);
      for (int i = s->nfixed; i < s->nargs; i++) printf ("%s a%d = __builtin_va_arg (ap, %s);", cty (s->args[i]), i, cty (s->args[i]));
    }
  printf ("conf_n++;");
  for (int i = 0; i < s->nargs; i++) printf ("memcpy (conf_out[%d], &a%d, sizeof a%d);", i, i, i);
  if (s->ret->kind != K_VOID) printf ("%s r; memcpy (&r, conf_ret, sizeof r); return r;", cty (s->ret));
  printf ("}\nstatic void cr%d (void *fn, void **av, void *rv) {", gk);
  if (s->ret->kind != K_VOID) printf ("%s r = ", cty (s->ret));
  printf ("((%s (%s*)(", cty (s->ret), at);
  for (int i = 0; i < (var ? s->nfixed : s->nargs); i++) printf ("%s%s", i ? "," : "", cty (s->args[i]));
  printf (var ? ",..." : s->nargs ? "" : "void");
  printf ("))fn)(");
  for (int i = 0; i < s->nargs; i++) printf ("%s*(%s*)av[%d]", i ? "," : "", cty (s->args[i]), i);
  printf (");");
  if (s->ret->kind != K_VOID) printf ("memcpy (rv, &r, sizeof r);");
  puts ("}");
  sig_text (s, b, sizeof b);
  gsig = realloc (gsig, (gk + 1) * sizeof *gsig); gsig[gk++] = strdup (b);
}
static void gensigs (int full)
{
  struct sig s; memset (&s, 0, sizeof s); s.nfixed = -1; s.api = A_GENCALLEE;
  static const int AB[] = { FFI_UNIX64, FFI_GNUW64 };
  for (int a = 0; a < 2; a++)
    {
      s.abi = AB[a]; s.nfixed = -1;
      bfs_states (a);
      for (int u = 0; u < NU; u++)
        {
          if (!full && u >= 140 && u % 29) continue;
          if (U[u]->size > 600) continue;
          /* once in a varying marshaller state, once as the only thing */
          for (int q = 0; q < (full ? 3 : 1); q++)
            {
              struct bst *b = &BS[(u * 7 + a + q * 53) % NBS];
              memcpy (s.args, b->pre, b->n * sizeof (T*)); s.nargs = b->n; s.args[s.nargs++] = U[u]; s.args[s.nargs++] = ty ("s2"); s.args[s.nargs++] = ty ("d");
              s.ret = U[(u * 11 + 3) % (full ? NU : 140)]; if (s.ret->size > 600) s.ret = ty ("v");
              gencode_one (&s);
            }
          s.nargs = u % 3; s.args[0] = ty ("d"); s.args[1] = ty ("s4"); s.ret = U[u]; gencode_one (&s);
        }
      static const char *V[] = { "s4","u8","d","p","{u8,d}","{d,d}","{3*u8}","l","{u1,u2}" };
      for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) for (int f = 1; f <= 2; f++)
        {
          if (!full && (i * 9 + j) % 4) continue;
          if (a && (i == 7 || j == 7)) continue;
          s.nargs = 0; for (int k = 0; k < f; k++) s.args[s.nargs++] = ty (k ? "d" : "s4");
          s.args[s.nargs++] = ty (V[i]); s.args[s.nargs++] = ty (V[j]); s.args[s.nargs++] = ty ("d"); s.args[s.nargs++] = ty (V[i]); s.args[s.nargs++] = ty (V[j]);
          s.nfixed = f; s.ret = ty (i & 1 ? "{3*u8}" : "s4"); gencode_one (&s);
        }
    }
}
static void run_conf (int want_abi_ms, FILE *o, int nl)
{
  u64 n[4] = { 0 }, fails = 0; char *sep = ""; int nfn = 0, nsamp = 0; char samples[4][1200];
  fprintf (o, "{\"failures\":[");
  for (int q = 0; gen_tables && gen_tables[q]; q++)
    for (GEN = gen_tables[q]; GEN->sig; GEN++)
      {
        struct sig s; if (!sig_parse (&s, GEN->sig)) exit (3);
        if (is_ms (s.abi) != want_abi_ms) continue;
        nfn++;
        if (nfn % 211 == 7 && nsamp < 4) snprintf (samples[nsamp++], 1200, "%s %s", GEN->cc, GEN->sig);
        for (s.api = A_GENCALLEE; s.api <= A_GENCLO; s.api++)
          for (s.pat = 0; s.pat < 3; s.pat++)
            for (int ab = 0; ab < (want_abi_ms && s.api >= A_GENFWD ? 2 : 1); ab++)
            {
              if (want_abi_ms) s.abi = abis_ms[ab ? 0 : 1];
              if (!((nl >> (s.api - A_GENCALLEE)) & 1)) continue;
              snprintf (sh->cur, sizeof sh->cur, "%s", GEN->sig);
              n[s.api - A_GENCALLEE]++;
              int e = run_case (&s) & (E_ARG|E_RET|E_COUNT|E_STATUS|E_AL);
              if (e && fails++ < 8) { fprintf (o, "%s{\"case\":\"conf %s %s\",\"cat\":%d,\"api\":%d,\"msg\":\"%s\"}", sep, GEN->cc, GEN->sig, e, s.api, errmsg); sep = ",\n"; }
            }
      }
  fprintf (o, "],\"samples\":["); for (int i = 0; i < nsamp; i++) fprintf (o, "%s\"%s\"", i ? "," : "", samples[i]);
  fprintf (o, "],\n\"functions\":%d,\"model_vs_callee\":%lu,\"model_vs_caller\":%lu,\"call_to_compiled\":%lu,\"compiled_to_closure\":%lu,\"fails\":%lu}\n", nfn, n[0], n[1], n[2], n[3], fails);
}

static void worker_setup (void)
{
  mem_init ();
  st_clo = ffi_closure_alloc (sizeof (ffi_raw_closure) + 64, &st_code);
  if (!st_clo) { fprintf (stderr, "no closure\n"); exit (3); }
}

int main (int argc, char **argv)
{
  if (argc >= 3 && !strcmp (argv[1], "replay"))
    {
      /* replay FILE|CASE [mask] : exit 0 quiet, 10 on failure */
      char buf[8000]; struct sig s; FILE *f;
      sh = calloc (1, sizeof *sh);
      if ((f = fopen (argv[2], "r"))) { if (!fgets (buf, sizeof buf, f)) return 3; while (buf[0] == '#') if (!fgets (buf, sizeof buf, f)) return 3; fclose (f); }
      else snprintf (buf, sizeof buf, "%s", argv[2]);
      int hh; u8 hops[64]; int hn = hist_parse_text (buf, &hh, hops);
      if (hn >= 0)
        {
          worker_setup (); hist_init (); want_mask = ~0; int e = hist_run (hh, hops, hn);
          if (e) printf ("cat=%#x %s\n", e, errmsg); else printf ("quiet\n");
          return e ? 10 : 0;
        }
      int po, pa, pb; char px[3000], py[3000];
      if (sscanf (buf, "pair %d %d %d %2999s %2999s", &po, &pa, &pb, px, py) == 5)
        {
          worker_setup (); T *x = ty (px), *y = ty (py); hist_init (); want_mask = ~0;
          stbits = calloc (NBITS / 8, 1); trbits = calloc (NBITS / 8, 1); pair_run (x, y, po, pa, pb);
          if (errcat) printf ("cat=%#x %s\n", errcat, errmsg); else printf ("quiet\n");
          return errcat ? 10 : 0;
        }
      if (!sig_parse (&s, buf)) { fprintf (stderr, "cannot parse case\n"); return 3; }
      if (argc > 3) want_mask = strtol (argv[3], 0, 0);
      worker_setup ();
      int e = run_case (&s);
      if (e) printf ("cat=%#x %s\n", e, errmsg); else printf ("quiet\n");
      return e & want_mask ? 10 : 0;
    }
  if (argc >= 6 && !strcmp (argv[1], "gencode"))
    {
      /* gencode quick|thorough SHARD NSHARDS gcc|clang : C source on stdout */
      gsh = atoi (argv[3]); gnsh = atoi (argv[4]); gmode = !strcmp (argv[5], "clang");
      build_universe (); printed = calloc (1, n_types + 4096);
      printf ("#include <string.h>\nextern int conf_n; extern unsigned char *conf_out[], *conf_ret;\n");
      gensigs (!strcmp (argv[2], "thorough"));
      printf ("struct gen { const char *sig; void *callee; void (*caller) (void *, void **, void *); const char *cc; } gen_%s_%d[] = {\n", argv[5], gsh);
      for (int i = 0; i < gk; i++) printf ("{\"%s\",(void*)ce%d,cr%d,\"%s\"},\n", gsig[i], i, i, argv[5]);
      puts ("{0}};");
      return 0;
    }
  if (argc >= 5 && !strcmp (argv[1], "conf"))
    {
      /* conf sysv|ms OUT MASK(bit0 model-callee 1 model-caller 2 ffi_call-callee 3 caller-closure) */
      sh = calloc (1, sizeof *sh); want_mask = ~0;
      worker_setup ();
      FILE *o = fopen (argv[3], "w"); run_conf (!strcmp (argv[2], "ms"), o, atoi (argv[4])); fclose (o);
      return 0;
    }
  if (argc < 4) { fprintf (stderr, "usage: sigx MODE quick|thorough OUT.json [workers]\n"); return 3; }
  const char *mode = argv[1]; thorough = !strcmp (argv[2], "thorough");
  W = argc > 4 ? atoi (argv[4]) : 8;
  build_universe ();
  for (int i = 0; i < n_types; i++) { mk_ffi (all_types[i]); value_mask (all_types[i]); }
  /* initialise library-side layouts once, in the parent */
  struct shard *all = mmap (NULL, sizeof (struct shard) * W, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  stbits = mmap (NULL, NBITS / 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  trbits = mmap (NULL, NBITS / 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  fflush (0);
  pid_t pid[64];
  for (w = 0; w < W; w++)
    {
      pid[w] = fork ();
      if (!pid[w])
        {
          sh = &all[w]; worker_setup (); sh->started = 1;
          alarm (thorough ? 3000 : 600);
          explore (mode); sh->enumerated = idx; sh->done = 1; _exit (0);
        }
    }
  FILE *o = fopen (argv[3], "w");
  u64 runs = 0, chk = 0, fails = 0; int bad = 0; char *sep = "";
  for (int i = 0; i < W; i++) { int st; waitpid (pid[i], &st, 0); if (!all[i].done) { if (!all[i].started) { fprintf (stderr, "worker failed to start\n"); return 3; } bad++; all[i].extra[0] = WIFSIGNALED (st) ? WTERMSIG (st) : 1000 + WEXITSTATUS (st); } }
  fprintf (o, "{\"failures\":[");
  for (int i = 0; i < W; i++)
    {
      runs += all[i].runs; chk += all[i].args_checked; fails += all[i].fails;
      for (int k = 0; k < all[i].nfail; k++)
        { char *nl = strchr (all[i].fail[k], '\n'); *nl = 0; fprintf (o, "%s{\"case\":\"%s\",\"cat\":%d,\"msg\":\"%s\"}", sep, all[i].fail[k], all[i].failcat[k], nl + 3); sep = ",\n"; }
      if (!all[i].done) { fprintf (o, "%s{\"case\":\"%s\",\"cat\":%d,\"msg\":\"crash signal %lu\"}", sep, all[i].cur, E_CRASH, all[i].extra[0]); sep = ",\n"; fails++; }
    }
  u64 ns = 0, nt = 0; for (u32 i = 0; i < NBITS / 64; i++) ns += __builtin_popcountll (stbits[i]), nt += __builtin_popcountll (trbits[i]);
  fprintf (o, "],\n\"samples\":["); sep = "";
  for (int i = 0; i < W; i++) for (int k = 0; k < all[i].nsample && k < 2; k++) { fprintf (o, "%s\"%s\"", sep, all[i].sample[k]); sep = ",\n"; }
  fprintf (o, "],\n\"runs\":%lu,\"enumerated\":%lu,\"args_checked\":%lu,\"states\":%lu,\"transitions\":%lu,\"types\":%d,\"fails\":%lu,\"mask\":%d}\n",
           runs, all[0].enumerated, chk, ns, nt, NU, fails, all[0].mask);
  fclose (o);
  return fails ? 10 : 0;
}
