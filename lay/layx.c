/* Layout and request explorer (P09, P10): every bounded type tree, request and
   sequence of layout-computing calls is executed on the library and judged by
   a reference model; the layout model itself is compared with two compilers.  */
#define TH (1 << 20)
#include "../sig/model.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct shard { u64 runs, idx; volatile int started, done; char cur[4000]; int nfail; char fail[4][5000]; u64 fails; char sample[3][600]; int nsample; int sig; };
static struct shard *sh; static int W, w, stop_flag, thorough; static u64 idx;
#define NBITS (1u << 26)
static u64 *stbits, *trbits;
static inline void setbit (u64 *b, u64 h) { if (!b) return; h = mix (h) & (NBITS - 1); u64 m = 1ull << (h & 63); if (!(b[h >> 6] & m)) __atomic_fetch_or (&b[h >> 6], m, __ATOMIC_RELAXED); }
static char emsg[1200]; static int failed;
static void fail (const char *fmt, ...) { if (failed) return; va_list ap; va_start (ap, fmt); vsnprintf (emsg, sizeof emsg, fmt, ap); va_end (ap); failed = 1; }
static int mine (void) { u64 my = idx++; return !stop_flag && my % W == (u64)w; }
static void report (void)
{
  sh->runs++;
  if (sh->nsample < 3 && sh->runs % 1777 == 5) snprintf (sh->sample[sh->nsample++], 600, "%s", sh->cur);
  if (!failed) return;
  if (sh->nfail < 4) snprintf (sh->fail[sh->nfail++], 5000, "%s\n%s", sh->cur, emsg);
  sh->fails++; failed = 0; if (sh->nfail >= 2) stop_flag = 1;
}

/* ------------------------------------------------------------------ */
/* P09 */
static T **U; static int NU;
static void addu (T *t) { for (T **h = U; h && h < U + NU; h++) if (*h == t) return; U = realloc (U, (NU + 1) * sizeof *U); U[NU++] = t; }
static u8 *inU; static int inUcap;
static void addq (T *t)
{
  if (t->id >= inUcap) { inU = realloc (inU, t->id + 65536); memset (inU + inUcap, 0, t->id + 65536 - inUcap); inUcap = t->id + 65536; }
  if (inU[t->id]) return; inU[t->id] = 1; if ((NU & 1023) == 0) U = realloc (U, (NU + 1024) * sizeof *U); U[NU++] = t;
}
static void lists (const char **a, int n, int len)
{
  int c[8] = { 0 }; char b[2000];
  for (;;)
    {
      int o = sprintf (b, "{"); for (int i = 0; i < len; i++) o += sprintf (b + o, "%s%s", i ? "," : "", a[c[i]]); strcpy (b + o, "}"); addq (ty (b));
      int i = 0; while (i < len && ++c[i] == n) c[i++] = 0;
      if (i == len) break;
    }
}
static void universe (void)
{
  static const char *L[] = { "u1","s1","u2","s2","u4","s4","u8","s8","p","f","d","l","F","D","L","Cu1","Cs2","Cs4","Cs8" };
  static const char *Q[] = { "u1","u2","u4","d","l","F","D","Cs2" };
  static const char *N[] = { "u1","u2","u8","l","{u1}","{u1,u2}","{u8,u1}","{u1,l}","{3*u1}","{F,u1}","{u2,u4,u1}","{{u1,u2},u1}","{{{u1}},d}","{17*u1}","{d,{u1,l}}" };
  static const char *D[] = { "u1","u4","{{{u1},u2},u4}","{u1,{u1,{u1,{u1,l}}}}","{{u1,{3*u2}},{u1,{3*u2}}}","{7*{u4,u1}}","{{l,u1},u1}","{{D,u1},{u1,D}}","{L,u1}" };
  for (unsigned i = 0; i < sizeof L / sizeof *L; i++) addq (ty (L[i]));
  for (int n = 1; n <= 3; n++) lists (L, 19, n);
  lists (Q, 8, 4); lists (Q, 8, 5); if (thorough) lists (L, 19, 4);
  for (int n = 1; n <= 3; n++) lists (N, 15, n);
  lists (N, 15, 4);
  for (int n = 1; n <= 4; n++) lists (D, 9, n);
  /* long field lists and deep nesting */
  for (unsigned i = 0; i < 8; i++) for (int n = 2; n <= 71; n++) { addq (tyf ("{%d*%s}", n, Q[i])); if (n < 70) addq (tyf ("{%d*%s,u1}", n, Q[i])); if (n < 70) addq (tyf ("{u1,%d*%s}", n, Q[i])); }
  for (unsigned i = 0; i < 8; i++)
    {
      char b[2000]; snprintf (b, sizeof b, "%s", Q[i]);
      for (int d = 0; d < 40; d++) { char c[2000]; snprintf (c, sizeof c, d % 3 == 0 ? "{%s}" : d % 3 == 1 ? "{u1,%s}" : "{%s,u2}", b); strcpy (b, c); addq (ty (b)); }
    }
}

static ffi_type *deep_reset (T *t)
{
  ffi_type *f = mk_ffi (t);
  if (t->kind == K_STRUCT) { f->size = 0; f->alignment = 0; for (int i = 0; i < t->n; i++) deep_reset (t->f[i]); }
  return f;
}
/* every aggregate is either untouched or exactly right; `must' requires right */
static void deep_check (T *t, int must, const char *when)
{
  ffi_type *f = mk_ffi (t);
  if (t->kind == K_STRUCT)
    {
      if (f->size == 0 && !must) { for (int i = 0; i < t->n; i++) deep_check (t->f[i], 0, when); return; }
      if (f->size != t->size || f->alignment != t->align || f->type != FFI_TYPE_STRUCT)
        fail ("%s: %.300s has size %zu alignment %d type %d, C has size %u alignment %u", when, t->name, f->size, f->alignment, f->type, t->size, t->align);
      for (int i = 0; i < t->n; i++)
        { if (t->elems[i] != mk_ffi (t->f[i])) fail ("%s: element %d of %.300s changed", when, i, t->name); deep_check (t->f[i], 1, when); }
      if (t->elems[t->n]) fail ("%s: terminator of %.300s changed", when, t->name);
    }
  else if (f->size != t->size || f->alignment != t->align)
    fail ("%s: %.300s has size %zu alignment %d, C has size %u alignment %u", when, t->name, f->size, f->alignment, t->size, t->align);
}
enum { O_OFF, O_OFFNULL, O_RET, O_ARG, O_VAR, O_WRAP, O_WRAPOFF, NOPS };
static const char *opn[] = { "offsets", "offsets(NULL)", "prep as result", "prep as argument", "prep as variadic argument", "prep inside a structure", "offsets of an enclosing structure" };
static size_t offbuf[MAXF + 80];
static void lay_op (T *t, int op, int abi)
{
  ffi_cif c; ffi_type *at[4], *f = mk_ffi (t), *el[4]; ffi_type wrap = { 0, 0, FFI_TYPE_STRUCT, el }; ffi_status st = FFI_OK;
  size_t wsz, wal = t->align > 2 ? t->align : 2;
  if ((op == O_OFF || op == O_OFFNULL) && t->kind != K_STRUCT) return;
  el[0] = &ffi_type_uint16; el[1] = f; el[2] = &ffi_type_uint8; el[3] = NULL;
  u32 w1 = (2 + t->align - 1) / t->align * t->align; wsz = (w1 + t->size + 1 + wal - 1) / wal * wal;
  switch (op)
    {
    case O_OFF:
      for (int i = 0; i < t->n + 64; i++) offbuf[i] = 0x5E5E5E5E5E5E5E5Eull;
      st = ffi_get_struct_offsets (abi, f, offbuf + 32);
      if (st == FFI_OK)
        for (int i = -32; i < t->n + 32; i++)
          {
            if (i >= 0 && i < t->n) { if (offbuf[32 + i] != t->off[i]) fail ("offset of field %d of %.300s is %zu, C has %u", i, t->name, offbuf[32 + i], t->off[i]); }
            else if (offbuf[32 + i] != 0x5E5E5E5E5E5E5E5Eull) fail ("entry %d of the offsets array of %.300s (%d fields) written", i, t->name, t->n);
          }
      break;
    case O_OFFNULL: st = ffi_get_struct_offsets (abi, f, NULL); break;
    case O_RET: st = ffi_prep_cif (&c, abi, 0, f, NULL); break;
    case O_ARG: at[0] = &ffi_type_sint; at[1] = f; st = ffi_prep_cif (&c, abi, 2, &ffi_type_void, at); break;
    case O_VAR: at[0] = f; at[1] = f; if (t->kind < K_F64 && t->kind != K_S32 && t->kind != K_U32 && t->kind != K_U64 && t->kind != K_S64 && t->kind != K_PTR) return;
      st = ffi_prep_cif_var (&c, abi, 1, 2, &ffi_type_void, at); break;
    case O_WRAP: at[0] = &wrap; st = ffi_prep_cif (&c, abi, 1, &wrap, at); break;
    case O_WRAPOFF:
      {
        size_t o[4] = { 9, 9, 9, 99 }; st = ffi_get_struct_offsets (abi, &wrap, o);
        if (st == FFI_OK && (o[0] != 0 || o[1] != w1 || o[2] != w1 + t->size || o[3] != 99)) fail ("offsets of {u2,%.300s,u1} are %zu %zu %zu, C has 0 %u %u", t->name, o[0], o[1], o[2], w1, w1 + t->size);
      }
      break;
    }
  if (st != FFI_OK) fail ("%s of %.300s refused with status %d", opn[op], t->name, st);
  if ((op == O_WRAP || op == O_WRAPOFF) && (wrap.size != wsz || wrap.alignment != wal))
    fail ("{u2,%.300s,u1} has size %zu alignment %d, C has size %zu alignment %zu", t->name, wrap.size, wrap.alignment, wsz, wal);
}
static void check_builtins (void)
{
  struct { ffi_type *t; size_t s, a; const char *n; } B[] = {
#define X(f, c) { &ffi_type_##f, sizeof (c), _Alignof (c), #f }
    X (uint8, uint8_t), X (sint8, int8_t), X (uint16, uint16_t), X (sint16, int16_t), X (uint32, uint32_t), X (sint32, int32_t),
    X (uint64, uint64_t), X (sint64, int64_t), X (float, float), X (double, double), X (pointer, void *), X (longdouble, long double),
    X (complex_float, _Complex float), X (complex_double, _Complex double), X (complex_longdouble, _Complex long double),
    X (uchar, unsigned char), X (schar, signed char), X (ushort, unsigned short), X (sshort, short), X (uint, unsigned), X (sint, int),
    X (ulong, unsigned long), X (slong, long),
  };
  for (unsigned i = 0; i < sizeof B / sizeof *B; i++)
    if (B[i].t->size != B[i].s || B[i].t->alignment != B[i].a) fail ("ffi_type_%s has size %zu alignment %d, C has %zu %zu", B[i].n, B[i].t->size, B[i].t->alignment, B[i].s, B[i].a);
}
static void p09_case (T *t, int op1, int op2, int a)
{
  static const int AB[] = { FFI_UNIX64, FFI_WIN64, FFI_GNUW64 };
  deep_reset (t);
  lay_op (t, op1, AB[a % 3]); if (!((op1 == O_OFF || op1 == O_OFFNULL) && t->kind != K_STRUCT)) deep_check (t, op1 != O_VAR, opn[op1]);
  lay_op (t, op2, AB[(a + 1) % 3]); deep_check (t, op1 != O_VAR && !(t->kind != K_STRUCT && op1 < 2), opn[op2]);
}

/* user-defined leaf sizes and alignments (vectors, unions with a preset size), big and small */
struct pl { size_t size; unsigned short al; };
static const struct pl PL[] = { { 1,1 }, { 3,1 }, { 6,2 }, { 12,4 }, { 16,16 }, { 32,32 }, { 64,64 }, { 256,256 }, { 4096,4096 }, { 32768,32768 }, { 65535,1 }, { 65536,2 }, { 100000,4 },
  { 0x7fffffff,1 }, { 0x80000000ull,8 }, { 0xffffffffull,1 }, { 0x100000000ull,16 }, { 0x123456789aull,2 } };
#define NPL (int)(sizeof PL / sizeof *PL)
static void preset_case (const int *c, int n, int nest, int abi)
{
  static ffi_type leaf[8], *el[10], *uel[8][2], inner, *iel[4]; size_t off[16], o = 0, al = 1, want[10], s;
  for (int i = 0; i < n; i++)
    { uel[i][0] = &ffi_type_uint8; uel[i][1] = NULL; leaf[i] = (ffi_type){ PL[c[i]].size, PL[c[i]].al, FFI_TYPE_STRUCT, uel[i] }; el[i] = &leaf[i]; }
  el[n] = NULL;
  ffi_type t = { 0, 0, FFI_TYPE_STRUCT, el };
  for (int i = 0; i < n; i++) { size_t a = PL[c[i]].al; o = (o + a - 1) / a * a; want[i] = o; o += PL[c[i]].size; if (a > al) al = a; }
  s = (o + al - 1) / al * al;
  for (int i = 0; i < 16; i++) off[i] = 77;
  if (!nest)
    {
      ffi_status st = ffi_get_struct_offsets (abi, &t, off);
      if (st) fail ("offsets refused with status %d", st);
      for (int i = 0; i < n; i++) if (off[i] != want[i]) fail ("offset %d is %zu, expected %zu", i, off[i], want[i]);
      if (off[n] != 77) fail ("offsets array overrun");
    }
  else
    {
      inner = t; inner.elements = el; iel[0] = &inner; iel[1] = &ffi_type_uint8; iel[2] = NULL; ffi_type out = { 0, 0, FFI_TYPE_STRUCT, iel };
      ffi_status st = ffi_get_struct_offsets (abi, &out, off);
      if (st) fail ("offsets refused with status %d", st);
      if (off[0] != 0 || off[1] != s || out.size != (s + 1 + al - 1) / al * al || out.alignment != al) fail ("enclosing structure: offsets %zu %zu size %zu alignment %d, expected 0 %zu %zu %zu", off[0], off[1], out.size, out.alignment, s, (s + 1 + al - 1) / al * al, al);
      t = inner;
    }
  if (t.size != s || t.alignment != al) fail ("size %zu alignment %d, expected %zu %zu", t.size, t.alignment, s, al);
  for (int i = 0; i < n; i++) if (leaf[i].size != PL[c[i]].size || leaf[i].alignment != PL[c[i]].al) fail ("preset size or alignment of field %d changed to %zu %d", i, leaf[i].size, leaf[i].alignment);
}
/* very many fields */
static void many_case (int n, int k)
{
  static const char *K[] = { "u1","u2","l","{u1,u2}" }; T *t = ty (K[k]);
  ffi_type **el = malloc ((n + 2) * sizeof *el); size_t *off = malloc ((n + 2) * sizeof *off);
  deep_reset (t); el[0] = &ffi_type_uint8; for (int i = 1; i <= n; i++) el[i] = mk_ffi (t); el[n + 1] = NULL;
  ffi_type s = { 0, 0, FFI_TYPE_STRUCT, el }; off[n + 1] = 77;
  if (ffi_get_struct_offsets (FFI_UNIX64, &s, off)) fail ("refused");
  size_t o = t->align; if (off[0]) fail ("offset 0");
  for (int i = 1; i <= n && !failed; i++) { if (off[i] != o) fail ("offset %d is %zu, expected %zu", i, off[i], o); o += t->size; }
  o = (o + t->align - 1) / t->align * t->align;
  if (s.size != o || s.alignment != t->align || off[n + 1] != 77) fail ("size %zu alignment %d, expected %zu %u", s.size, s.alignment, o, t->align);
  free (el); free (off);
}

/* graphs of shared types: breadth-first search over the reachable states of the type objects */
static const char *GR[][5] = {
  { "{u1,u8}", "{{u1,u8},u1}", "{u2,{{u1,u8},u1},{u1,u8}}", "{l,{u2,{{u1,u8},u1},{u1,u8}}}", 0 },
  { "{u1}", "{{u1},{u1}}", "{{{u1},{u1}},u2,{u1}}", "{{u1},D,{{u1},{u1}}}", 0 },
  { "{F,u1}", "{u1,{F,u1}}", "{{F,u1},{u1,{F,u1}}}", "{{u1,{F,u1}},L}", 0 },
  { "{3*u1}", "{2*{3*u1}}", "{u4,2*{3*u1}}", "{{2*{3*u1}},{u4,2*{3*u1}},u1}", 0 },
  { "{u2,u1}", "{u1,l}", "{{u2,u1},{u1,l}}", "{{u1,l},{u2,u1},{{u2,u1},{u1,l}}}", 0 },
};
#define NGR 5
static T *gsub[32]; static int ngsub;
static void collect (T *t) { if (t->kind != K_STRUCT) return; for (int i = 0; i < t->n; i++) collect (t->f[i]); for (int i = 0; i < ngsub; i++) if (gsub[i] == t) return; gsub[ngsub++] = t; }
struct gst { size_t s[12]; unsigned short a[12]; };
static void gsave (struct gst *g) { memset (g, 0, sizeof *g); for (int i = 0; i < ngsub; i++) g->s[i] = gsub[i]->ffi.size, g->a[i] = gsub[i]->ffi.alignment; }
static void gload (const struct gst *g) { for (int i = 0; i < ngsub; i++) gsub[i]->ffi.size = g->s[i], gsub[i]->ffi.alignment = g->a[i]; }
static u64 ghash (int g) { u64 h = g + 1; for (int i = 0; i < ngsub; i++) h = mix (h * 31 + gsub[i]->ffi.size * 64 + gsub[i]->ffi.alignment); return h; }
static void gcheck (int target, int op)
{
  for (int i = 0; i < ngsub; i++) deep_check (gsub[i], 0, opn[op]);
  deep_check (gsub[target], 1, opn[op]);
}
static void graph_setup (int g) { ngsub = 0; for (int i = 0; GR[g][i]; i++) collect (ty (GR[g][i])); for (int i = 0; i < ngsub; i++) deep_reset (gsub[i]); }
static void graph_bfs (int g)
{
  static struct gst q[100000]; int n = 0;
  graph_setup (g); gsave (&q[n++]);
  for (int i = 0; i < n && !failed; i++)
    for (int t = 0; t < ngsub; t++) for (int op = 0; op < NOPS; op++) for (int abi = FFI_UNIX64; abi <= FFI_GNUW64; abi++)
      {
        gload (&q[i]); u64 h = ghash (g); setbit (stbits, h); setbit (trbits, h * 31 + t * 64 + op * 4 + abi);
        lay_op (gsub[t], op, abi); gcheck (t, op); sh->runs++;
        if (failed) return;
        struct gst s; gsave (&s); int dup = 0;
        for (int k = 0; k < n; k++) if (!memcmp (&q[k], &s, sizeof s)) { dup = 1; break; }
        if (!dup && n < 100000) q[n++] = s;
      }
}
static void graph_seq (int g, const int *ops, int n)
{
  for (int i = 0; i < ngsub; i++) deep_reset (gsub[i]);
  for (int i = 0; i < n; i++)
    {
      u64 h = ghash (g); setbit (stbits, h); setbit (trbits, h * 31 + ops[i]);
      int t = ops[i] / NOPS, op = ops[i] % NOPS; lay_op (gsub[t], op, FFI_UNIX64 + (t + i) % 3); gcheck (t, op);
    }
}
/* type objects reused for other contents after their descriptions were discarded */
static void reuse_case (int a, int b, int c, int op)
{
  static const char *V[] = { "{u1,u8}", "{3*u2}", "{d,d}", "{l,u1}", "{u1}", "{{u1,u2},u1}" }; int v[3] = { a, b, c };
  static ffi_type o, wr, *wel[3]; static ffi_type *el[8];
  for (int k = 0; k < 3; k++)
    {
      T *t = ty (V[v[k]]); deep_reset (t); for (int i = 0; i < t->n; i++) el[i] = mk_ffi (t->f[i]); el[t->n] = NULL;
      o = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, el }; wel[0] = &ffi_type_uint8; wel[1] = &o; wel[2] = NULL; wr = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, wel };
      size_t off[8]; ffi_cif cf; ffi_type *at[2] = { &wr, &o }; ffi_status st;
      int q = (op >> k) & 1; st = q ? ffi_get_struct_offsets (FFI_UNIX64, &wr, off) : ffi_prep_cif (&cf, FFI_UNIX64, 2, &o, at);
      if (st) fail ("refused with status %d", st);
      if (q && off[1] != t->align) fail ("offset %zu, expected %u", off[1], t->align);
      if (o.size != t->size || o.alignment != t->align) fail ("reused type object now %s: size %zu alignment %d, expected %u %u", t->name, o.size, o.alignment, t->size, t->align);
    }
}
static u64 tstate (T *t, int st) { return ((u64)t->id * 16 + st) * 7 + 3; }
static void explore_p09 (void)
{
  snprintf (sh->cur, sizeof sh->cur, "builtins"); if (mine ()) { check_builtins (); report (); }
  for (int i = 0; i < NU && !stop_flag; i++)
    {
      int n2 = U[i]->kind == K_STRUCT && U[i]->n > 20 ? 2 : NOPS;
      for (int a = 0; a < NOPS; a++) for (int b = 0; b < n2; b++)
        {
          if (!mine ()) continue;
          snprintf (sh->cur, sizeof sh->cur, "type %d %d %d %s", a, b, i % 3, U[i]->name);
          setbit (stbits, tstate (U[i], 0)); setbit (stbits, tstate (U[i], 1)); setbit (trbits, tstate (U[i], 0) * 64 + a); setbit (trbits, tstate (U[i], 1) * 64 + b);
          p09_case (U[i], a, b, i); report ();
        }
    }
  for (int n = 1; n <= (thorough ? 5 : 4); n++)
    {
      int c[8] = { 0 };
      for (;;)
        {
          if (mine ())
            for (int k = 0; k < 2; k++)
              {
                int o = snprintf (sh->cur, sizeof sh->cur, "preset %d %d", k, n); for (int i = 0; i < n; i++) o += sprintf (sh->cur + o, " %d", c[i]);
                u64 h = k; for (int i = 0; i < n; i++) h = h * 37 + c[i] + 1; setbit (stbits, h ^ 0x777000000ull); setbit (trbits, h ^ 0x777000000ull);
                preset_case (c, n, k, FFI_UNIX64 + c[0] % 3); report ();
              }
          int i = 0; while (i < n && ++c[i] == NPL) c[i++] = 0;
          if (i == n) break;
        }
    }
  static const int MC[] = { 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 100000 };
  for (int i = 0; i < 14; i++) for (int k = 0; k < 4; k++) if (mine ()) { snprintf (sh->cur, sizeof sh->cur, "many %d %d", MC[i], k); setbit (stbits, 0x12345000 + i * 8 + k); many_case (MC[i], k); report (); }
  for (int g = 0; g < NGR; g++)
    {
      if (mine ()) { snprintf (sh->cur, sizeof sh->cur, "graph %d", g); graph_bfs (g); report (); }
      graph_setup (g); int no = ngsub * NOPS;
      for (int n = 2; n <= (thorough ? 5 : 4); n++)
        {
          int c[8] = { 0 };
          for (;;)
            {
              if (mine ())
                {
                  int o = snprintf (sh->cur, sizeof sh->cur, "seq %d %d", g, n); for (int i = 0; i < n; i++) o += sprintf (sh->cur + o, " %d", c[i]);
                  graph_seq (g, c, n); report ();
                }
              int i = 0; while (i < n && ++c[i] == no) c[i++] = 0;
              if (i == n || stop_flag) break;
            }
        }
    }
  for (int i = 0; i < 6 * 6 * 6 * 8; i++) if (mine ())
    { int a = i / 8 % 6, b = i / 48 % 6, c = i / 288; snprintf (sh->cur, sizeof sh->cur, "reuse %d %d %d %d", a, b, c, i % 8); setbit (stbits, 0x999000000ull + i); reuse_case (a, b, c, i % 8); report (); }
  snprintf (sh->cur, sizeof sh->cur, "builtins after all"); check_builtins (); report ();
}

/* compiled layouts */
struct cl { const char *name; unsigned size, align; const unsigned *off; int n; };
extern struct cl *cl_tables[] __attribute__((weak));
static u8 *pr;
static const char *cty (T *t) { static char b[4][40]; static int k; if (t->kind == K_STRUCT) { char *q = b[k++ & 3]; sprintf (q, "struct s%d", t->id); return q; } if (t->kind == K_CINT) { char *q = b[k++ & 3]; sprintf (q, "_Complex %s", KI[t->f[0]->kind].cname); return q; } return KI[t->kind].cname; }
static void pstruct (T *t) { if (t->kind != K_STRUCT || pr[t->id]) return; pr[t->id] = 1; for (int i = 0; i < t->n; i++) pstruct (t->f[i]); printf ("struct s%d{", t->id); for (int i = 0; i < t->n; i++) printf ("%s f%d;", cty (t->f[i]), i); puts ("};"); }
static void gencode (int shard, int n, const char *cc)
{
  pr = calloc (1, n_types + 1); puts ("#include <stddef.h>");
  for (int i = shard; i < NU; i += n) if (U[i]->kind == K_STRUCT)
    { T *t = U[i]; pstruct (t); printf ("static const unsigned o%d[]={", t->id); for (int k = 0; k < t->n; k++) printf ("offsetof(struct s%d,f%d),", t->id, k); puts ("};"); }
  printf ("struct cl{const char*n;unsigned s,a;const unsigned*o;int k;} cl_%s_%d[]={\n", cc, shard);
  for (int i = shard; i < NU; i += n) if (U[i]->kind == K_STRUCT) printf ("{\"%s\",sizeof(struct s%d),_Alignof(struct s%d),o%d,%d},\n", U[i]->name, U[i]->id, U[i]->id, U[i]->id, U[i]->n);
  puts ("{0}};");
}
static int conf (void)
{
  int n = 0;
  if (!cl_tables) { printf ("no tables\n"); return 3; }
  for (struct cl **c = cl_tables; *c; c++)
    for (struct cl *e = *c; e->name; e++)
      {
        T *t = ty (e->name); n++;
        if (t->size != e->size || t->align != e->align || t->n != e->n) { printf ("model disagrees with compiler on %s: %u %u vs %u %u\n", e->name, t->size, t->align, e->size, e->align); return 3; }
        for (int i = 0; i < t->n; i++) if (t->off[i] != e->off[i]) { printf ("model disagrees with compiler on offset %d of %s\n", i, e->name); return 3; }
      }
  printf ("%d\n", n);
  return 0;
}

/* ------------------------------------------------------------------ */
/* P10: the verdict of a request is a function of the request alone */
#define NT_ 22
static ffi_type tp[NT_], *tpp[NT_]; static ffi_type *tel[NT_][5];
static const struct { const char *nm; int el[4]; } TD[NT_] = {       /* el: -1 ends; first -2: elements == NULL */
  { "s4" }, { "d" }, { "f" }, { "u1" }, { "s2" }, { "u8" }, { "F" }, { "l" }, { "p" }, { "v" },       /* 0..9 built in */
  { "{u1,u8}", { 3, 5, -1 } }, { "{{u1,u8},s4}", { 10, 0, -1 } }, { "{}", { -1 } }, { "{NULL}", { -2 } },   /* 10 11 good, 12 13 bad */
  { "{s4,{}}", { 0, 12, -1 } }, { "{{},s4}", { 12, 0, -1 } }, { "{{u1,u8},{s4,{}}}", { 10, 14, -1 } },       /* 14 15 16 bad */
  { "{{{NULL}}}", { 18, -1 } }, { "{{NULL}}", { 13, -1 } }, { "{{u1,u8},{{u1,u8},{s4,{}}},{{u1,u8},s4}}", { 10, 16, 11, -1 } }, /* 17 18 19 bad */
  { "union", { 5, -1 } }, { "s1", },
};
static int t_bad (int t) { return t >= 12 && t <= 19; }
static int t_struct (int t) { return t >= 10 && t <= 20; }
static int t_promoted (int t) { return t == 2 || t == 3 || t == 4 || t == 21; }
static void t_reset (void)
{
  ffi_type *b[] = { &ffi_type_sint32, &ffi_type_double, &ffi_type_float, &ffi_type_uint8, &ffi_type_sint16, &ffi_type_uint64, &ffi_type_complex_float, &ffi_type_longdouble, &ffi_type_pointer, &ffi_type_void };
  for (int i = 0; i < 10; i++) tpp[i] = b[i];
  tpp[21] = &ffi_type_sint8;
  for (int i = 10; i < 21; i++) tpp[i] = &tp[i];
  for (int i = 10; i < 21; i++)
    {
      int k = 0; while (TD[i].el[k] >= 0) { tel[i][k] = tpp[TD[i].el[k]]; k++; } tel[i][k] = NULL;
      tp[i] = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, TD[i].el[0] == -2 ? NULL : tel[i] };
    }
  tp[20].size = 24; tp[20].alignment = 8;
}
enum { R_CIF, R_VAR, R_OFF, R_CLO, R_CLOOLD, R_RAWCLO, R_JRAWCLO, R_GO, NREQ };
static const char *rqn[] = { "prep_cif", "prep_cif_var", "get_struct_offsets", "prep_closure_loc", "prep_closure", "prep_raw_closure_loc", "prep_java_raw_closure_loc", "prep_go_closure" };
struct rq { int kind, abi, nfix, n, ret; int a[4]; };
static ffi_closure *clo; static void *code; static u8 *rwx;
static int good_abi (int a) { return a >= FFI_UNIX64 && a <= FFI_GNUW64; }
static void rq_text (const struct rq *r, char *b) { int o = sprintf (b, "%d %d %d %d %d", r->kind, r->abi, r->nfix, r->n, r->ret); for (int i = 0; i < 4; i++) o += sprintf (b + o, " %d", r->a[i]); }
static void hnd (ffi_cif *c, void *r, void **a, void *u) { }
static void rq_run (const struct rq *r)
{
  ffi_cif c; ffi_type *at[4]; ffi_status st = 99; size_t off[8]; unsigned ok = 0;   /* bit set of acceptable statuses */
  for (int i = 0; i < r->n; i++) at[i] = tpp[r->a[i]];
  if (!good_abi (r->abi)) ok |= 1 << FFI_BAD_ABI;
  if (r->kind == R_CIF || r->kind == R_VAR)
    {
      if (t_bad (r->ret)) ok |= 1 << FFI_BAD_TYPEDEF;
      for (int i = 0; i < r->n; i++) { if (t_bad (r->a[i])) ok |= 1 << FFI_BAD_TYPEDEF; if (r->kind == R_VAR && i >= r->nfix && t_promoted (r->a[i])) ok |= 1 << FFI_BAD_ARGTYPE; }
    }
  else if (r->kind == R_OFF) { if (t_bad (r->ret) || !t_struct (r->ret)) ok |= 1 << FFI_BAD_TYPEDEF; }
  if (!ok) ok = 1 << FFI_OK;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
  switch (r->kind)
    {
    case R_CIF: st = ffi_prep_cif (&c, r->abi, r->n, tpp[r->ret], at); break;
    case R_VAR: st = ffi_prep_cif_var (&c, r->abi, r->nfix, r->n, tpp[r->ret], at); break;
    case R_OFF: st = ffi_get_struct_offsets (r->abi, tpp[r->ret], r->nfix ? off : NULL); break;
    default:
      {
        ffi_go_closure go; ffi_type *a1[] = { &ffi_type_sint };
        if (ffi_prep_cif (&c, good_abi (r->abi) ? r->abi : FFI_UNIX64 + r->nfix % 3, 1, &ffi_type_sint, a1)) { fail ("preparing int (int) refused"); return; }
        c.abi = r->abi;
        switch (r->kind)
          {
          case R_CLO: st = ffi_prep_closure_loc (clo, &c, hnd, NULL, code); break;
          case R_CLOOLD: st = ffi_prep_closure ((ffi_closure *)rwx, &c, hnd, NULL); break;
          case R_RAWCLO: st = ffi_prep_raw_closure_loc ((ffi_raw_closure *)clo, &c, (void*)hnd, NULL, code); break;
          case R_JRAWCLO: st = ffi_prep_java_raw_closure_loc ((ffi_java_raw_closure *)clo, &c, (void*)hnd, NULL, code); break;
          case R_GO: st = ffi_prep_go_closure (&go, &c, hnd); break;
          }
      }
    }
  if ((unsigned)st > 8 || !(ok >> st & 1))
    {
      char b[300]; int o = sprintf (b, "abi %d", r->abi);
      if (r->kind <= R_VAR) { o += sprintf (b + o, " fixed %d result %s arguments", r->nfix, TD[r->ret].nm); for (int i = 0; i < r->n; i++) o += sprintf (b + o, " %s", TD[r->a[i]].nm); }
      else if (r->kind == R_OFF) sprintf (b + o, " type %s", TD[r->ret].nm);
      fail ("%s (%s) returned status %d; acceptable set %#x", rqn[r->kind], b, st, ok);
    }
}
static u64 rq_hash (const struct rq *r) { u64 h = 5; const int *p = (const int *)r; for (unsigned i = 0; i < sizeof *r / 4; i++) h = mix (h * 31 + p[i]); return h; }
static u64 t_state (void) { u64 h = 0; for (int i = 10; i < 21; i++) h = mix (h * 5 + tp[i].size * 32 + tp[i].alignment); return h; }
static void rq_seq (const struct rq *rs, int n)
{
  t_reset ();
  for (int i = 0; i < n; i++) { u64 h = t_state (); setbit (stbits, h); setbit (trbits, h ^ rq_hash (&rs[i])); rq_run (&rs[i]); if (failed) { char b[40]; sprintf (b, " (request %d)", i); strcat (emsg, b); break; } }
  setbit (stbits, t_state ());
}
static void rq_emit (const struct rq *rs, int n)
{
  if (!mine ()) return;
  int o = sprintf (sh->cur, "reqs %d", n); for (int i = 0; i < n; i++) { sh->cur[o++] = ' '; rq_text (&rs[i], sh->cur + o); o += strlen (sh->cur + o); }
  rq_seq (rs, n); report ();
}
/* defect at every place of every tree up to a depth */
static ffi_type *mk_tree (const int **code, int depth, int *bad, ffi_type *pool, ffi_type *(*els)[5], int *np)
{
  int k = *(*code)++;      /* 0 s4, 1 d, 2 empty, 3 null elements, 4..6 structure of 1..3 */
  if (k == 0 || (k > 3 && depth == 0)) return &ffi_type_sint32;
  if (k == 1) return &ffi_type_double;
  int me = (*np)++; ffi_type *t = &pool[me];
  if (k == 2) { els[me][0] = NULL; *t = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, els[me] }; *bad = 1; return t; }
  if (k == 3) { *t = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, NULL }; *bad = 1; return t; }
  for (int i = 0; i < k - 3; i++) els[me][i] = mk_tree (code, depth - 1, bad, pool, els, np);
  els[me][k - 3] = NULL; *t = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, els[me] };
  return t;
}
static void tree_case (const int *cd, int pos)
{
  static ffi_type pool[64], *els[64][5]; ffi_type *at[3]; ffi_cif c; size_t off[8]; int bad = 0, np = 0; const int *q = cd;
  ffi_type *t = mk_tree (&q, 3, &bad, pool, els, &np); ffi_status st = 0, want = bad ? FFI_BAD_TYPEDEF : FFI_OK;
  at[0] = at[1] = at[2] = &ffi_type_sint32; if (pos < 3) at[pos] = t;
  for (int rep = 0; rep < 2 && !failed; rep++)
    {
      int abi = FFI_UNIX64 + (pos + rep) % 3;
      if (pos < 3) st = ffi_prep_cif (&c, abi, 3, &ffi_type_void, at);
      else if (pos == 3) st = ffi_prep_cif (&c, abi, 3, t, at);
      else if (pos == 4) { at[2] = t; st = ffi_prep_cif_var (&c, abi, 1, 3, &ffi_type_void, at); }
      else { want = t->type != FFI_TYPE_STRUCT || bad ? FFI_BAD_TYPEDEF : FFI_OK; st = ffi_get_struct_offsets (abi, t, off); }
      if (st != want) fail ("attempt %d returned status %d instead of %d", rep, st, want);
    }
}
static void tree_enum (int *cd, int n, int need, int depth_left, int *stack, int sp);
static int tcd[64], treew;
static int gen_tree (int at, int depth, int (*k) (int, void *), void *arg);
struct cont { int remaining, depth; int (*k) (int, void *); void *arg; };
static int gen_fields (int at, void *v)
{
  struct cont *c = v;
  if (c->remaining == 0) return c->k (at, c->arg);
  struct cont d = *c; d.remaining--;
  return gen_tree (at, c->depth, gen_fields, &d);
}
static int gen_tree (int at, int depth, int (*k) (int, void *), void *arg)
{
  for (int c = 0; c <= (depth > 0 ? treew + 3 : 3); c++)
    {
      tcd[at] = c;
      if (c <= 3) k (at + 1, arg);
      else { struct cont cc = { c - 3, depth - 1, k, arg }; gen_fields (at + 1, &cc); }
    }
  return 0;
}
static int tree_done (int n, void *arg)
{
  for (int pos = 0; pos < 6; pos++) if (mine ())
    {
      int o = sprintf (sh->cur, "tree %d", pos); for (int i = 0; i < n; i++) o += sprintf (sh->cur + o, " %d", tcd[i]);
      u64 h = pos; for (int i = 0; i < n; i++) h = mix (h * 7 + tcd[i] + 1); setbit (stbits, h); setbit (trbits, h);
      tree_case (tcd, pos); report ();
    }
  return 0;
}
static void long_case (int n, int p, int k, int nf)
{
  static ffi_type *at[70001]; ffi_cif cf;
  t_reset (); for (int i = 0; i < n; i++) at[i] = &ffi_type_sint32;
  if (p < n) at[p] = k < 2 ? tpp[12 + k] : k == 2 ? &ffi_type_float : tpp[16];
  ffi_status st, want;
  if (k & 1) { st = ffi_prep_cif (&cf, FFI_UNIX64 + p % 3, n, &ffi_type_void, at); want = p < n ? FFI_BAD_TYPEDEF : FFI_OK; }
  else { st = ffi_prep_cif_var (&cf, FFI_UNIX64 + p % 3, nf, n, &ffi_type_void, at); want = p >= n ? FFI_OK : k == 0 ? FFI_BAD_TYPEDEF : p >= nf ? FFI_BAD_ARGTYPE : FFI_OK; }
  if (st != want) fail ("status %d instead of %d", st, want);
}
static void long_emit (int n, int p, int k, int nf)
{
  if (!mine ()) return;
  u64 h = (((0x31ull * 70001 + n) * 70001 + p) * 4 + k) * 70001 + nf; setbit (stbits, h); setbit (trbits, h);
  snprintf (sh->cur, sizeof sh->cur, "long %d %d %d %d", n, p, k, nf); long_case (n, p, k, nf); report ();
}
static void explore_p10 (void)
{
  struct rq r; memset (&r, 0, sizeof r);
  /* convention numbers */
  static int AB[4000]; int na = 0;
  for (int a = -300; a <= 600; a++) AB[na++] = a;
  for (int k = 4; k < 32; k++) for (int d = -5; d <= 5; d++) AB[na++] = (int)((1u << k) + d);
  for (int i = 0; i < na; i++) for (int k = 0; k < NREQ; k++) for (int f = 0; f < 3; f++)
    {
      memset (&r, 0, sizeof r); r.kind = k; r.abi = AB[i]; r.nfix = k == R_VAR ? 1 : f; r.n = k <= R_VAR ? 1 + f : 0; if (k == R_OFF) r.ret = 10 + f % 2; r.a[1] = 1; r.a[2] = 10;
      rq_emit (&r, 1);
    }
  /* all signatures */
  static const int good[] = { FFI_UNIX64, FFI_WIN64, FFI_GNUW64, 0, 1, 5 };
  int maxn = 3;
  for (int n = 0; n <= maxn; n++)
    {
      int c[4] = { 0 };
      for (;;)
        {
          int skip = 0; for (int i = 0; i < n; i++) if (c[i] == 9) skip = 1;
          if (!skip && !stop_flag)
            for (int ret = 0; ret < NT_; ret += n == 3 && !thorough ? 3 : 1) for (int ab = 0; ab < (n == 3 && !thorough ? 4 : 6); ab++)
              {
                memset (&r, 0, sizeof r); r.abi = good[ab]; r.n = n; r.ret = ret; for (int i = 0; i < n; i++) r.a[i] = c[i];
                r.kind = R_CIF; rq_emit (&r, 1);
                r.kind = R_VAR; for (r.nfix = 1; r.nfix <= n; r.nfix++) rq_emit (&r, 1);
              }
          int i = 0; while (i < n && ++c[i] == NT_) c[i++] = 0;
          if (i == n) break;
        }
    }
  for (int t = 0; t < NT_; t++) for (int ab = 0; ab < 6; ab++) for (int f = 0; f < 2; f++) { memset (&r, 0, sizeof r); r.kind = R_OFF; r.abi = good[ab]; r.ret = t; r.nfix = f; rq_emit (&r, 1); }
  /* one defective argument at every position of long lists, at the edges of very long ones */
  for (int n = 1; n <= 300; n += n < 20 ? 1 : 7) for (int p = 0; p <= n; p++) for (int k = 0; k < 4; k++) long_emit (n, p, k, n / 2 + 1 < n ? n / 2 + 1 : n);
  static const int LN[] = { 255,256,257,260,300,511,512,513,1000,1024,1025,4097,65535,65536,65537,70000 };
  for (unsigned a = 0; a < sizeof LN / sizeof *LN; a++)
    {
      int n = LN[a], nf[] = { 1,2,n / 2 + 1,127,128,254,255,256,257,258,512,n - 257,n - 256,n - 2,n - 1,n };
      for (unsigned f = 0; f < sizeof nf / sizeof *nf; f++)
        {
          if (nf[f] < 1 || nf[f] > n) continue;
          int pp[] = { 0,1,31,32,63,64,127,128,254,255,256,257,nf[f] - 1,nf[f],nf[f] + 1,n / 2,n - 257,n - 256,n - 2,n - 1,n };
          for (unsigned q = 0; q < sizeof pp / sizeof *pp; q++) for (int k = 0; k < 4; k++)
            if (pp[q] >= 0 && pp[q] <= n && !((k & 1) && f)) long_emit (n, pp[q], k, nf[f]);
        }
    }
  /* trees with defects */
  treew = 2; gen_tree (0, 3, tree_done, NULL);
  if (thorough) { treew = 3; gen_tree (0, 2, tree_done, NULL); }
  /* all sequences of requests over shared type objects */
  static struct rq P[128]; int np = 0;
  for (int t = 10; t <= 20; t++)
    { P[np++] = (struct rq){ R_CIF, FFI_UNIX64, 0, 1, 9, { t } }; P[np++] = (struct rq){ R_CIF, FFI_WIN64 + t % 2, 0, 2, t, { 0, 11 } }; P[np++] = (struct rq){ R_OFF, FFI_UNIX64, t % 2, 0, t }; }
  P[np++] = (struct rq){ R_VAR, FFI_UNIX64, 1, 2, 9, { 0, 2 } }; P[np++] = (struct rq){ R_VAR, FFI_UNIX64, 1, 2, 9, { 2, 1 } }; P[np++] = (struct rq){ R_VAR, FFI_GNUW64, 1, 3, 11, { 3, 10, 4 } };
  P[np++] = (struct rq){ R_VAR, FFI_UNIX64, 1, 3, 10, { 19, 11, 0 } }; P[np++] = (struct rq){ R_CIF, 1, 0, 1, 9, { 11 } }; P[np++] = (struct rq){ R_CIF, 5, 0, 1, 14, { 16 } };
  P[np++] = (struct rq){ R_CLO, 9, 0 }; P[np++] = (struct rq){ R_CLO, FFI_UNIX64 }; P[np++] = (struct rq){ R_GO, 0 }; P[np++] = (struct rq){ R_OFF, 0, 1, 0, 19 }; P[np++] = (struct rq){ R_CIF, FFI_UNIX64, 0, 3, 19, { 11, 14, 10 } };
  P[np++] = (struct rq){ R_VAR, FFI_UNIX64, 2, 3, 9, { 11, 15, 3 } };
  for (int i = 0; i < np; i++) for (int j = 0; j < np; j++)
    {
      struct rq s[5] = { P[i], P[j] }; rq_emit (s, 2);
      for (int k = 0; k < np; k++)
        { s[2] = P[k]; rq_emit (s, 3); if (1) for (int l = 0; l < np; l++) { s[3] = P[l]; { rq_emit (s, 4); if (thorough) for (int m = 0; m < np; m++) { s[4] = P[m]; rq_emit (s, 5); } } } }
    }
  snprintf (sh->cur, sizeof sh->cur, "builtins after all"); check_builtins (); report ();
}

static void replay_case (const char *b)
{
  int a, c, d, n, k; char nm[4000]; stbits = trbits = NULL;
  if (sscanf (b, "type %d %d %d %3999s", &a, &c, &d, nm) == 4) { p09_case (ty (nm), a, c, d); return; }
  int v[64], nv = 0; const char *p = strchr (b, ' '); if (p) for (; sscanf (p, " %d%n", &k, &n) == 1 && nv < 64; p += n) v[nv++] = k;
  if (!strncmp (b, "preset", 6)) preset_case (v + 2, v[1], v[0], FFI_UNIX64 + v[2] % 3);
  else if (!strncmp (b, "many", 4)) many_case (v[0], v[1]);
  else if (!strncmp (b, "graph", 5)) graph_bfs (v[0]);
  else if (!strncmp (b, "seq", 3)) { graph_setup (v[0]); graph_seq (v[0], v + 2, v[1]); }
  else if (!strncmp (b, "reuse", 5)) reuse_case (v[0], v[1], v[2], v[3]);
  else if (!strncmp (b, "reqs", 4)) { struct rq r[5]; for (int i = 0; i < v[0]; i++) memcpy (&r[i], v + 1 + 9 * i, sizeof (struct rq)); rq_seq (r, v[0]); }
  else if (!strncmp (b, "long", 4)) long_case (v[0], v[1], v[2], v[3]);
  else if (!strncmp (b, "tree", 4)) tree_case (v + 1, v[0]);
  else check_builtins ();
}
static void setup (void)
{
  clo = ffi_closure_alloc (sizeof (ffi_raw_closure) + 64, &code);
  rwx = mmap (NULL, 8192, PROT_READ|PROT_WRITE|PROT_EXEC, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  if (!clo || rwx == MAP_FAILED) { fprintf (stderr, "setup\n"); exit (3); }
}
int main (int argc, char **argv)
{
  if (argc > 2 && !strcmp (argv[1], "replay"))
    { sh = calloc (1, sizeof *sh); setup (); replay_case (argv[2]); if (failed) puts (emsg); else puts ("quiet"); return failed ? 10 : 0; }
  if (argc < 3) return 3;
  thorough = !strcmp (argv[2], "thorough");
  if (!strcmp (argv[1], "gencode")) { universe (); gencode (atoi (argv[3]), atoi (argv[4]), argv[5]); return 0; }
  if (!strcmp (argv[1], "conf")) return conf ();
  W = argc > 4 ? atoi (argv[4]) : 8;
  int p9 = !strcmp (argv[1], "P09");
  if (p9) { universe (); for (int g = 0; g < NGR; g++) for (int i = 0; GR[g][i]; i++) ty (GR[g][i]); for (int i = 0; i < n_types; i++) mk_ffi (all_types[i]); }
  struct shard *all = mmap (NULL, sizeof (struct shard) * W, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  stbits = mmap (NULL, NBITS / 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  trbits = mmap (NULL, NBITS / 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  pid_t pid[64]; fflush (0);
  for (w = 0; w < W; w++) if (!(pid[w] = fork ())) { sh = &all[w]; setup (); sh->started = 1; alarm (thorough ? 800 : 200); if (p9) explore_p09 (); else explore_p10 (); sh->idx = idx; sh->done = 1; _exit (0); }
  FILE *o = fopen (argv[3], "w"); char *sep = ""; u64 runs = 0, fails = 0;
  fprintf (o, "{\"failures\":[");
  for (int i = 0; i < W; i++)
    {
      int st; waitpid (pid[i], &st, 0); if (!all[i].started) return 3;
      runs += all[i].runs; fails += all[i].fails;
      for (int k = 0; k < all[i].nfail; k++) { char *nl = strchr (all[i].fail[k], '\n'); *nl = 0; fprintf (o, "%s{\"case\":\"%s\",\"msg\":\"%s\"}", sep, all[i].fail[k], nl + 1); sep = ",\n"; }
      if (!all[i].done) { fprintf (o, "%s{\"case\":\"%s\",\"msg\":\"ended by signal %d\"}", sep, all[i].cur, WIFSIGNALED (st) ? WTERMSIG (st) : 0); sep = ",\n"; fails++; }
    }
  u64 ns = 0, nt = 0; for (u32 i = 0; i < NBITS / 64; i++) ns += __builtin_popcountll (stbits[i]), nt += __builtin_popcountll (trbits[i]);
  fprintf (o, "],\n\"samples\":["); sep = ""; for (int i = 0; i < W && i < 4; i++) for (int k = 0; k < all[i].nsample; k++) { fprintf (o, "%s\"%s\"", sep, all[i].sample[k]); sep = ",\n"; }
  fprintf (o, "],\n\"runs\":%lu,\"enumerated\":%lu,\"states\":%lu,\"transitions\":%lu,\"types\":%d,\"fails\":%lu}\n", runs, all[0].idx, ns, nt, NU, fails);
  fclose (o);
  return fails ? 10 : 0;
}
