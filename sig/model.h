/* Reference model of C types and of the two x86-64 calling conventions,
   written from the psABI and the Microsoft x64 ABI documents, independent of
   the library under test.  */
#ifndef MODEL_H
#define MODEL_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <ffi.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;

enum kind { K_VOID, K_U8, K_S8, K_U16, K_S16, K_U32, K_S32, K_U64, K_S64, K_PTR,
            K_F32, K_F64, K_LD, K_CF32, K_CF64, K_CLD, K_CINT, K_STRUCT };

#define MAXF 72
#define MAXLEAF 320

typedef struct T T;
struct leaf { u16 off; u8 size; u8 cls; u8 kind; };        /* cls: 0 int 1 sse 2 x87 */
struct T {
  int kind, n, id;
  T **f;                  /* fields, or the element type for K_CINT */
  u32 size, align;
  u32 *off;
  struct leaf *leaf; int nleaf;
  ffi_type ffi, *pffi;    /* description handed to the library */
  ffi_type **elems;
  char *name;
  int has_ld;
};

enum { C_INT = 0, C_SSE = 1, C_X87 = 2 };

static const struct { const char *nm, *cname; int size, align, cls; } KI[] = {
  [K_VOID]={"v","void",0,1,0}, [K_U8]={"u1","unsigned char",1,1,0}, [K_S8]={"s1","signed char",1,1,0},
  [K_U16]={"u2","unsigned short",2,2,0}, [K_S16]={"s2","short",2,2,0}, [K_U32]={"u4","unsigned int",4,4,0},
  [K_S32]={"s4","int",4,4,0}, [K_U64]={"u8","unsigned long",8,8,0}, [K_S64]={"s8","long",8,8,0},
  [K_PTR]={"p","void*",8,8,0}, [K_F32]={"f","float",4,4,1}, [K_F64]={"d","double",8,8,1},
  [K_LD]={"l","long double",16,16,2}, [K_CF32]={"F","_Complex float",8,4,1}, [K_CF64]={"D","_Complex double",16,8,1},
  [K_CLD]={"L","_Complex long double",32,16,2}, [K_CINT]={"C","",0,0,0}, [K_STRUCT]={"{","",0,0,0},
};

/* ---------- interned types ---------- */
static T **all_types; static int n_types, cap_types;

static void add_leaves (T *t, T *src, u32 base)
{
  for (int i = 0; i < src->nleaf; i++)
    {
      struct leaf l = src->leaf[i]; l.off += base;
      t->leaf = realloc (t->leaf, (t->nleaf + 1) * sizeof (struct leaf));
      t->leaf[t->nleaf++] = l;
    }
}
static void one_leaf (T *t, u32 off, int size, int cls, int kind)
{
  t->leaf = realloc (t->leaf, (t->nleaf + 1) * sizeof (struct leaf));
  t->leaf[t->nleaf++] = (struct leaf){ off, size, cls, kind };
}

static T *parse_type_ (const char **ps);
static T *find_type (const char *nm, size_t len)
{
  for (int i = 0; i < n_types; i++)
    if (strlen (all_types[i]->name) == len && !memcmp (all_types[i]->name, nm, len)) return all_types[i];
  return NULL;
}
/* hash index for interning */
#ifndef TH
#define TH 65536
#endif
static T *th[TH];
static u32 hstr (const char *s, size_t n) { u32 h = 2166136261u; while (n--) h = (h ^ (u8)*s++) * 16777619u; return h & (TH-1); }
static T *lookup (const char *s, size_t n)
{
  for (u32 h = hstr (s, n); th[h]; h = (h + 1) & (TH-1))
    if (strlen (th[h]->name) == n && !memcmp (th[h]->name, s, n)) return th[h];
  return NULL;
}
static T *intern (T *t)
{
  if (n_types >= TH - 1000) { fprintf (stderr, "too many types\n"); exit (3); }
  if (n_types == cap_types) all_types = realloc (all_types, (cap_types = cap_types ? cap_types * 2 : 1024) * sizeof *all_types);
  t->id = n_types; all_types[n_types++] = t;
  u32 h = hstr (t->name, strlen (t->name)); while (th[h]) h = (h + 1) & (TH-1); th[h] = t;
  return t;
}

static ffi_type *base_ffi (int k)
{
  switch (k)
    {
    case K_VOID: return &ffi_type_void;
    case K_U8: return &ffi_type_uint8; case K_S8: return &ffi_type_sint8;
    case K_U16: return &ffi_type_uint16; case K_S16: return &ffi_type_sint16;
    case K_U32: return &ffi_type_uint32; case K_S32: return &ffi_type_sint32;
    case K_U64: return &ffi_type_uint64; case K_S64: return &ffi_type_sint64;
    case K_PTR: return &ffi_type_pointer; case K_F32: return &ffi_type_float;
    case K_F64: return &ffi_type_double; case K_LD: return &ffi_type_longdouble;
    case K_CF32: return &ffi_type_complex_float; case K_CF64: return &ffi_type_complex_double;
    case K_CLD: return &ffi_type_complex_longdouble;
    }
  abort ();
}

static T *parse_type_ (const char **ps)
{
  const char *s = *ps, *start = s;
  T *t = NULL;
  if (*s == '{')
    {
      T *f[MAXF]; int n = 0;
      s++;
      while (*s != '}')
        {
          if (*s == ',') s++;
          /* repetition: 12*u1 */
          int rep = 1; char *e;
          if (*s >= '0' && *s <= '9') { rep = strtol (s, &e, 10); s = e + 1; }
          T *x = parse_type_ (&s);
          while (rep-- && n < MAXF) f[n++] = x;
        }
      s++;
      t = lookup (start, s - start);
      if (!t)
        {
          t = calloc (1, sizeof *t);
          t->kind = K_STRUCT; t->n = n;
          t->f = malloc (n * sizeof (T*) + 8); memcpy (t->f, f, n * sizeof (T*));
          t->off = malloc (n * sizeof (u32) + 8);
          u32 o = 0, al = 1;
          for (int i = 0; i < n; i++)
            {
              o = (o + f[i]->align - 1) / f[i]->align * f[i]->align;
              t->off[i] = o; add_leaves (t, f[i], o); o += f[i]->size;
              if (f[i]->align > al) al = f[i]->align;
              t->has_ld |= f[i]->has_ld;
            }
          t->align = al; t->size = (o + al - 1) / al * al;
          t->name = strndup (start, s - start);
          intern (t);
        }
    }
  else if (*s == 'C')
    {
      s++; T *e = parse_type_ (&s);
      t = lookup (start, s - start);
      if (!t)
        {
          t = calloc (1, sizeof *t); t->kind = K_CINT; t->n = 1; t->f = malloc (8); t->f[0] = e;
          t->size = 2 * e->size; t->align = e->align;
          add_leaves (t, e, 0); add_leaves (t, e, e->size);
          t->name = strndup (start, s - start);
          intern (t);
        }
    }
  else
    {
      int k, best = -1;
      for (k = 0; k < K_CINT; k++)
        if (!strncmp (s, KI[k].nm, strlen (KI[k].nm))) best = k;
      if (best < 0) { fprintf (stderr, "bad type '%s'\n", s); exit (3); }
      s += strlen (KI[best].nm);
      t = lookup (start, s - start);
      if (!t)
        {
          t = calloc (1, sizeof *t); t->kind = best; t->size = KI[best].size; t->align = KI[best].align;
          if (best == K_CF32) { one_leaf (t,0,4,1,K_F32); one_leaf (t,4,4,1,K_F32); }
          else if (best == K_CF64) { one_leaf (t,0,8,1,K_F64); one_leaf (t,8,8,1,K_F64); }
          else if (best == K_CLD) { one_leaf (t,0,16,2,K_LD); one_leaf (t,16,16,2,K_LD); t->has_ld = 1; }
          else if (best != K_VOID) one_leaf (t,0,t->size,KI[best].cls,best);
          if (best == K_LD) t->has_ld = 1;
          t->name = strndup (start, s - start);
          intern (t);
        }
    }
  *ps = s;
  return t;
}
static T *ty (const char *s) { return parse_type_ (&s); }
static T *tyf (const char *fmt, ...)
{ static char b[8192]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap); return ty (b); }

/* Library-side description: built from the public macros only, aggregates
   with size 0 so the library computes the layout itself.  */
static ffi_type *mk_ffi (T *t)
{
  if (t->pffi) return t->pffi;
  if (t->kind < K_CINT) return t->pffi = base_ffi (t->kind);
  if (t->kind == K_CINT)
    {
      t->elems = malloc (2 * sizeof (ffi_type *)); t->elems[0] = mk_ffi (t->f[0]); t->elems[1] = NULL;
      t->ffi = (ffi_type){ t->size, t->align, FFI_TYPE_COMPLEX, t->elems };
      return t->pffi = &t->ffi;
    }
  t->elems = malloc ((t->n + 1) * sizeof (ffi_type *));
  for (int i = 0; i < t->n; i++) t->elems[i] = mk_ffi (t->f[i]);
  t->elems[t->n] = NULL;
  t->ffi = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, t->elems };
  return t->pffi = &t->ffi;
}

/* ---------- System V classification ---------- */
/* out: number of eightbytes (1,2) with classes, or 0 = memory */
static int sysv_classify (const T *t, int cls[2])
{
  if (t->kind == K_LD || t->kind == K_CLD) return 0;
  if (t->size == 0 || t->size > 16) return 0;
  int n = (t->size + 7) / 8;
  cls[0] = cls[1] = -1;
  for (int i = 0; i < t->nleaf; i++)
    {
      const struct leaf *l = &t->leaf[i];
      if (l->cls == C_X87) return 0;
      for (u32 b = l->off / 8; b <= (u32)(l->off + l->size - 1) / 8; b++)
        if (cls[b] == -1 || l->cls == C_INT) cls[b] = l->cls;
    }
  for (int i = 0; i < n; i++) if (cls[i] == -1) cls[i] = C_SSE; /* cannot happen in this universe */
  return n;
}

/* A location of a piece of a value */
enum { L_GPR, L_SSE, L_STACK, L_REF, L_X87 };
struct piece { u8 where; u16 reg, off; u32 len; u32 stk; };
struct place { int n; struct piece p[2]; };

static const int sysv_gpr[6] = { 7, 6, 2, 1, 8, 9 };   /* rdi rsi rdx rcx r8 r9 by encoding */
static const int ms_gpr[4] = { 1, 2, 8, 9 };

/* marshaller state */
struct mst { int g, s; u32 stk; };

static int sysv_ret_in_mem (const T *t)
{
  int c[2];
  if (t->kind == K_VOID || t->kind == K_LD || t->kind == K_CLD) return 0;
  if (t->kind == K_STRUCT && t->nleaf == 1 && t->leaf[0].kind == K_LD) return 0;
  return sysv_classify (t, c) == 0;
}
static void sysv_start (struct mst *m, const T *ret) { m->g = sysv_ret_in_mem (ret); m->s = 0; m->stk = 0; }
static void sysv_arg (struct mst *m, const T *t, struct place *pl)
{
  int c[2], n = sysv_classify (t, c), g = 0, s = 0;
  for (int i = 0; i < n; i++) if (c[i] == C_INT) g++; else s++;
  if (n && m->g + g <= 6 && m->s + s <= 8)
    {
      pl->n = n;
      for (int i = 0; i < n; i++)
        {
          u32 len = t->size - 8 * i; if (len > 8) len = 8;
          if (c[i] == C_INT) pl->p[i] = (struct piece){ L_GPR, sysv_gpr[m->g++], 8*i, len, 0 };
          else pl->p[i] = (struct piece){ L_SSE, m->s++, 8*i, len, 0 };
        }
      return;
    }
  u32 al = t->align < 8 ? 8 : t->align;
  m->stk = (m->stk + al - 1) / al * al;
  pl->n = 1; pl->p[0] = (struct piece){ L_STACK, 0, 0, t->size, m->stk };
  m->stk += (t->size + 7) / 8 * 8;
}

/* Microsoft x64: one slot per argument */
static int ms_byval (const T *t)
{ return t->size == 1 || t->size == 2 || t->size == 4 || t->size == 8; }
static int ms_ret_in_mem (const T *t)
{
  if (t->kind == K_VOID) return 0;
  return !ms_byval (t);
}
static void ms_start (struct mst *m, const T *ret) { m->g = ms_ret_in_mem (ret); m->s = 0; m->stk = 0; }
static void ms_arg (struct mst *m, const T *t, struct place *pl)
{
  int i = m->g++;
  pl->n = 1;
  struct piece *p = &pl->p[0];
  p->off = 0; p->len = ms_byval (t) ? t->size : 8; p->stk = 8 * i; p->reg = 0;
  if (!ms_byval (t)) { p->where = L_REF; p->reg = i; return; }
  if (i >= 4) { p->where = L_STACK; return; }
  if (t->kind == K_F32 || t->kind == K_F64) { p->where = L_SSE; p->reg = i; }
  else { p->where = L_GPR; p->reg = ms_gpr[i]; }
}

/* return pieces: L_GPR reg 0/2, L_SSE reg 0/1, L_X87 reg 0/1, or memory (n==0, mem=1) */
static void sysv_ret (const T *t, struct place *pl, int *mem)
{
  int c[2], n;
  *mem = 0; pl->n = 0;
  if (t->kind == K_VOID) return;
  if (t->kind == K_LD || (t->kind == K_STRUCT && t->nleaf == 1 && t->leaf[0].kind == K_LD))
    { pl->n = 1; pl->p[0] = (struct piece){ L_X87, 0, 0, 10, 0 }; return; }
  if (t->kind == K_CLD)
    { pl->n = 2; pl->p[0] = (struct piece){ L_X87, 0, 0, 10, 0 }; pl->p[1] = (struct piece){ L_X87, 1, 16, 10, 0 }; return; }
  n = sysv_classify (t, c);
  if (!n) { *mem = 1; return; }
  int g = 0, s = 0;
  pl->n = n;
  for (int i = 0; i < n; i++)
    {
      u32 len = t->size - 8 * i; if (len > 8) len = 8;
      if (c[i] == C_INT) pl->p[i] = (struct piece){ L_GPR, g++ ? 2 : 0, 8*i, len, 0 };
      else pl->p[i] = (struct piece){ L_SSE, s++, 8*i, len, 0 };
    }
}
static void ms_ret (const T *t, struct place *pl, int *mem)
{
  *mem = 0; pl->n = 0;
  if (t->kind == K_VOID) return;
  if (!ms_byval (t)) { *mem = 1; return; }
  pl->n = 1;
  if (t->kind == K_F32 || t->kind == K_F64) pl->p[0] = (struct piece){ L_SSE, 0, 0, t->size, 0 };
  else pl->p[0] = (struct piece){ L_GPR, 0, 0, t->size, 0 };
}

/* ---------- values ---------- */
static inline u64 mix (u64 x) { x ^= x >> 31; x *= 0x7fb5d329728ea185ull; x ^= x >> 27; x *= 0x81dadef4bc2dd44dull; return x ^ (x >> 33); }
static const u8 *value_mask (T *t)
{
  static u8 *m[1<<16];
  if (t->id < (1<<16) && m[t->id]) return m[t->id];
  u8 *x = calloc (1, t->size + 1);
  for (int i = 0; i < t->nleaf; i++)
    memset (x + t->leaf[i].off, 0xff, t->leaf[i].kind == K_LD ? 10 : t->leaf[i].size);
  m[t->id] = x;
  return x;
}
/* pat 0: top bits set, 1: top bits clear, 2: all ones, 3: all zero, 4: small negative/positive mix */
static void fill_value (u8 *b, const T *t, u64 seed, int pat)
{
  for (u32 i = 0; i < t->size; i++) b[i] = 0x5C ^ (u8)mix (seed * 77 + i);     /* padding junk */
  for (int i = 0; i < t->nleaf; i++)
    {
      const struct leaf *l = &t->leaf[i];
      u64 v = mix (seed * 1000003u + i * 7919u + 13);
      if (l->kind == K_LD)
        {
          u64 man = v | 0x8000000000000000ull; u16 ex = 0x3fff + (v >> 20 & 0x1f);
          if (pat == 0) ex |= 0x8000;
          memcpy (b + l->off, &man, 8); memcpy (b + l->off + 8, &ex, 2);
        }
      else if (l->kind == K_F32)
        { u32 w = ((u32)v & 0x007fffff) | 0x3f800000; if (pat == 0) w |= 0x80000000; if (pat == 2) w = 0x7fa00001 + ((u32)v & 0xff); if (pat == 3) w = 0; memcpy (b + l->off, &w, 4); }
      else if (l->kind == K_F64)
        { u64 w = (v & 0x000fffffffffffffull) | 0x3ff0000000000000ull; if (pat == 0) w |= 1ull << 63; if (pat == 2) w = 0x7ff4000000000001ull + (v & 0xff); if (pat == 3) w = 0; memcpy (b + l->off, &w, 8); }
      else
        {
          u64 top = 1ull << (l->size * 8 - 1);
          if (pat == 0) v |= top; else if (pat == 1) { v &= ~top; v |= top >> 1; } else if (pat == 2) v = ~0ull; else if (pat == 3) v = 0;
          memcpy (b + l->off, &v, l->size);
        }
    }
}
static int same_value (const void *a, const void *b, T *t)
{
  const u8 *m = value_mask (t), *x = a, *y = b;
  for (u32 i = 0; i < t->size; i++) if ((x[i] ^ y[i]) & m[i]) return 0;
  return 1;
}
static inline int is_int_kind (int k) { return k >= K_U8 && k <= K_PTR; }
static inline u64 widen (const T *t, const void *p)   /* full register image of an integer */
{
  switch (t->kind)
    {
    case K_U8: return *(u8*)p; case K_S8: return (s64)*(s8*)p;
    case K_U16: return *(u16*)p; case K_S16: return (s64)*(s16*)p;
    case K_U32: return *(u32*)p; case K_S32: return (s64)*(s32*)p;
    default: return *(u64*)p;
    }
}

struct regs { u64 gpr[16]; u8 xmm[16][16]; u64 rflags; u32 mxcsr; u16 fcw, pad; u8 fpu[112]; };
_Static_assert (sizeof (struct regs) == 512, "regs");
struct inv { void *target; void *stack; u64 nstack, resv; struct regs in, out; u8 canary[128]; };
_Static_assert (offsetof (struct inv, canary) == 1056, "inv");
void invoke (struct inv *);
void probe_sysv (void); void probe_ms (void); void handler_thunk (void);
void raw_handler_thunk (void); void jraw_handler_thunk (void);
#endif
