/* P20: histories of preparing, re-preparing, calling, binding and invoking over
   call descriptions that share type objects.  Included by sigx.c.  */
enum { STYLE_PLAIN, STYLE_RAW, STYLE_GO };
struct hset { const char *sig[3]; int style; };
/* "M" stands for one type object that is rewritten while no live description uses it */
static const char *MV[] = { "{s8,s8}", "{f,d}", "{s8,p,d}" };    /* not otherwise used in the sets that name M */
static const struct hset HS[] = {
  { { "2 -1 {u8,u8} {u8,d};s4;{3*u8}", "3 -1 {u8,u8} {u8,d};d;{3*u8}", "2 -1 {u8,d} {3*u8};l;f" }, 0 },
  { { "2 -1 {u1,{u1,u2}} {u1,u2};s1;d", "2 -1 {u1,u2} {u1,{u1,u2}};f", "3 -1 {3*u8} {u1,{u1,u2}};{u1,u2};s8;s8;{3*u8}" }, 0 },
  { { "2 1 s4 s4;{d,d};d", "2 -1 {d,d} {{d,d},d};s4", "4 -1 {{d,d},d} {d,d};s4" }, 0 },
  { { "2 -1 l l;{l}", "2 -1 {l} {l};l;s4", "2 -1 L {{l}};s2" }, 0 },
  { { "2 -1 F D;F;{F}", "3 -1 D F;{F};s4", "2 -1 {F} D" }, 0 },
  { { "2 -1 v {3*f}", "2 -1 {3*f} v1", "4 -1 {3*f} {3*f};{3*f}" }, 0 },
  { { "2 -1 M M;s4", "2 -1 s4 d;{M};M", "3 -1 M s4;M;{M}" }, 0 },
  { { "2 -1 {M} s4;M", "3 2 s8 s4;M;{M}", "2 -1 d {M};d;d" }, 0 },
  { { "2 -1 {u8,u8} {u8,d};s4;{3*u8}", "3 -1 {u8,u8} {u8,d};d;{3*u8}", "2 -1 u2 {3*u8};p;f" }, 1 },
  { { "2 -1 {u8,u8} {u8,d};s4;{3*u8}", "3 -1 {u8,u8} {u8,d};d;{3*u8}", "2 -1 M M;l;f" }, 2 },
};
#define NHS (int)(sizeof HS / sizeof *HS)
#define A_HCALL A_HCALL_
#define A_HRAW A_HRAW_
#define A_HGO A_HGO_
#define A_HCLO A_HCLO_

struct hobj { ffi_cif cif; ffi_type *at[16]; ffi_closure *clo; void *code; ffi_go_closure go; struct sig cur, bound; int prepared, isbound; long ud; };
#define NHO 2
static struct hobj HO[NHO]; static struct hobj *HCUR; static int HSTYLE;
static ffi_type M_obj, MW_obj; static ffi_type *M_el[3][8], *MW_el[2]; static int M_var;
static struct sig hsig[NHS][3][3];       /* set, sig, M variant */
static int uses_M[NHS][3];
static T *hty[64]; static int nhty;      /* aggregate types to reset */
static T *MT[3], *MWT[3];

static void hist_note (T *t) { if (t->kind != K_STRUCT) return; for (int i = 0; i < nhty; i++) if (hty[i] == t) return; hty[nhty++] = t; for (int i = 0; i < t->n; i++) hist_note (t->f[i]); }
static void hist_parse (struct sig *s, const char *txt, int v, int style)
{
  char b[400], o[800]; int k = 0; snprintf (b, sizeof b, "%s", txt);
  for (char *p = b; *p; p++) if (*p == 'M') k += sprintf (o + k, "%s", MV[v]); else o[k++] = *p;
  o[k] = 0;
  char ret[200], args[400]; memset (s, 0, sizeof *s);
  sscanf (o, "%d %d %199s %399s", &s->abi, &s->nfixed, ret, args);
  s->ret = ty (ret); s->pat = v;
  if (strcmp (args, "v1")) for (const char *p = args; *p; ) { if (*p == ';') p++; s->args[s->nargs++] = parse_type_ (&p); }
}
static void hist_init (void)
{
  for (int v = 0; v < 3; v++)
    {
      MT[v] = ty (MV[v]); MWT[v] = tyf ("{%s}", MV[v]);
      for (int i = 0; i < MT[v]->n; i++) M_el[v][i] = mk_ffi (MT[v]->f[i]);
    }
  MW_el[0] = &M_obj;
  for (int h = 0; h < NHS; h++) for (int i = 0; i < 3; i++)
    {
      uses_M[h][i] = strchr (HS[h].sig[i], 'M') != NULL;
      for (int v = 0; v < 3; v++) hist_parse (&hsig[h][i][v], HS[h].sig[i], v, HS[h].style);
    }
  for (int i = 0; i < n_types; i++) mk_ffi (all_types[i]), value_mask (all_types[i]);
  for (int o = 0; o < NHO; o++) if (!HO[o].clo) HO[o].clo = ffi_closure_alloc (sizeof (ffi_raw_closure) + 64, &HO[o].code);
}
static void hist_set_M (int v, int on)
{
  for (int k = 0; k < 3; k++) { MT[k]->pffi = on ? &M_obj : &MT[k]->ffi; MWT[k]->pffi = on ? &MW_obj : &MWT[k]->ffi; }
  M_obj = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, M_el[v] }; MW_obj = (ffi_type){ 0, 0, FFI_TYPE_STRUCT, MW_el };
  M_var = v;
}
static void hist_reset (int h)
{
  nhty = 0;
  for (int i = 0; i < 3; i++) for (int v = 0; v < (uses_M[h][i] ? 3 : 1); v++)
    { hist_note (hsig[h][i][v].ret); for (int k = 0; k < hsig[h][i][v].nargs; k++) hist_note (hsig[h][i][v].args[k]); }
  for (int i = 0; i < nhty; i++) hty[i]->ffi.size = hty[i]->ffi.alignment = 0;
  int m = uses_M[h][0] || uses_M[h][1] || uses_M[h][2];
  hist_set_M (0, m); M_var = -1;
  HSTYLE = HS[h].style;
  for (int o = 0; o < NHO; o++) { HO[o].prepared = HO[o].isbound = 0; memset (&HO[o].cif, 0xA5, sizeof (ffi_cif)); }
}
static int sig_uses (const struct sig *s, T **ts)
{
  for (int v = 0; v < 3; v++) { if (s->ret == ts[v]) return 1; for (int i = 0; i < s->nargs; i++) if (s->args[i] == ts[v]) return 1; }
  return 0;
}
/* ops: 0..17 prepare object o with signature s, variant v (p<o><s><v>); 18.. call o; 20.. bind o; 22.. invoke o; 24 offsets; 25 failing request */
#define HOPS 26
static int hist_enabled (int h, int op)
{
  if (op < 18) { int s = op / 3 % 3, v = op % 3; return uses_M[h][s] || v == 0; }
  if (op < 20) return HO[op - 18].prepared;
  if (op < 22) return HO[op - 20].prepared;
  if (op < 24) { struct hobj *o = &HO[op - 22]; return o->isbound && o->prepared && !memcmp (&o->bound, &o->cur, sizeof o->cur); }
  return 1;
}
static void run_forward (const struct sig *s);
static void run_closure (const struct sig *s);
static void hist_op (int h, int op)
{
  ffi_status st;
  if (op < 18)
    {
      struct hobj *o = &HO[op / 9]; int s = op / 3 % 3, v = op % 3;
      if (uses_M[h][s] && M_var != v)
        {
          for (int k = 0; k < NHO; k++) if (HO[k].prepared && (sig_uses (&HO[k].cur, MT) || sig_uses (&HO[k].cur, MWT))) HO[k].prepared = 0;
          hist_set_M (v, 1);
        }
      const struct sig *g = &hsig[h][s][v];
      for (int i = 0; i < g->nargs; i++) o->at[i] = mk_ffi (g->args[i]);
      st = g->nfixed >= 0 ? ffi_prep_cif_var (&o->cif, g->abi, g->nfixed, g->nargs, mk_ffi (g->ret), o->at)
                          : ffi_prep_cif (&o->cif, g->abi, g->nargs, mk_ffi (g->ret), o->at);
      if (st != FFI_OK) { err (E_STATUS, "preparation refused with status %d", st); return; }
      o->cur = *g; o->prepared = 1;
      return;
    }
  if (op < 20)
    {
      struct hobj *o = &HO[op - 18]; struct sig s = o->cur;
      CIF = &o->cif; HCUR = o; model_sig (&s); s.api = HSTYLE == STYLE_RAW ? A_HRAW : HSTYLE == STYLE_GO ? A_HGO : A_HCALL;
      run_forward (&s);
      return;
    }
  if (op < 22)
    {
      struct hobj *o = &HO[op - 20]; o->ud = 0x77000 + op;
      if (HSTYLE == STYLE_RAW) st = ffi_prep_raw_closure_loc ((ffi_raw_closure *)o->clo, &o->cif, (void*)raw_handler_thunk, (void*)o->ud, o->code);
      else if (HSTYLE == STYLE_GO) st = ffi_prep_go_closure (&o->go, &o->cif, (void*)handler_thunk);
      else st = ffi_prep_closure_loc (o->clo, &o->cif, (void*)handler_thunk, (void*)o->ud, o->code);
      if (st != FFI_OK) { err (E_STATUS, "closure preparation refused with status %d", st); return; }
      o->bound = o->cur; o->isbound = 1;
      return;
    }
  if (op < 24)
    {
      struct hobj *o = &HO[op - 22]; struct sig s = o->cur;
      CIF = &o->cif; HCUR = o; model_sig (&s); s.api = A_HCLO; run_closure (&s);
      return;
    }
  if (op == 24)
    {
      T *t = NULL; for (int i = 0; i < nhty; i++) if (!t || hty[i]->n > t->n) t = hty[i];
      size_t off[MAXF];
      for (int a = FFI_UNIX64; a <= FFI_GNUW64; a++)
        if ((st = ffi_get_struct_offsets (a, mk_ffi (t), off)) != FFI_OK) err (E_STATUS, "offsets refused with status %d", st);
      return;
    }
  /* a malformed request naming the same types; its outcome is P10's business */
  {
    static ffi_type bad = { 0, 0, FFI_TYPE_STRUCT, NULL }; ffi_type *el[4]; ffi_type outer = { 0, 0, FFI_TYPE_STRUCT, el };
    ffi_cif c; ffi_type *at[4]; T *t = hty[0], *u = hty[nhty - 1];
    el[0] = mk_ffi (t); el[1] = &bad; el[2] = mk_ffi (u); el[3] = NULL;
    at[0] = mk_ffi (u); at[1] = &outer; at[2] = mk_ffi (t);
    ffi_prep_cif (&c, FFI_GNUW64, 3, mk_ffi (t), at);
    ffi_prep_cif (&c, FFI_UNIX64, 3, mk_ffi (t), at);
    ffi_prep_cif (&c, 77, 1, mk_ffi (t), at);
  }
}
static int hist_run (int h, const u8 *ops, int n)
{
  errcat = 0; errmsg[0] = 0; hist_reset (h);
  for (int i = 0; i < n; i++)
    {
      if (!hist_enabled (h, ops[i])) return 0;
      hist_op (h, ops[i]);
      if (errcat) { char b[300]; snprintf (b, sizeof b, " (at step %d)", i); strncat (errmsg, b, sizeof errmsg - strlen (errmsg) - 1); return errcat; }
    }
  return 0;
}
static void hist_text (char *b, size_t n, int h, const u8 *ops, int k)
{ size_t o = snprintf (b, n, "hist %d", h); for (int i = 0; i < k; i++) o += snprintf (b + o, n - o, " %d", ops[i]); }
static int hist_parse_text (const char *b, int *h, u8 *ops)
{
  int n = 0, k = 0, c; if (sscanf (b, "hist %d%n", h, &n) < 1) return -1;
  for (const char *p = b + n; sscanf (p, " %d%n", &c, &n) == 1; p += n) ops[k++] = c;
  return k;
}
static u64 hist_state (int h)
{
  u64 x = h * 4 + M_var + 1;
  for (int o = 0; o < NHO; o++) x = mix (x * 31 + HO[o].prepared * 2 + HO[o].isbound + (HO[o].prepared ? (u64)(HO[o].cur.ret->id * 64 + HO[o].cur.nargs * 8 + HO[o].cur.abi) << 4 : 0) + (HO[o].isbound ? (u64)(HO[o].bound.ret->id * 64 + HO[o].bound.abi) << 30 : 0));
  for (int i = 0; i < nhty; i++) x = mix (x * 3 + (mk_ffi (hty[i])->size != 0));
  return x;
}
/* every history of up to DEPTH steps; only maximal ones are executed from scratch, which covers their prefixes */
static void hist_emit (int h, u8 *ops, int n)
{
  u64 my = idx++;
  if (stop_flag || my % W != (u64)w) return;
  hist_text (sh->cur, sizeof sh->cur, h, ops, n); sh->runs++; sh->mask = want_mask;
  if (sh->nsample < 4 && (my / W) % 9973 == 5) { snprintf (sh->sample[sh->nsample], 1200, "%s", sh->cur); sh->nsample++; }
  errcat = 0; errmsg[0] = 0; hist_reset (h);
  for (int i = 0; i < n; i++)
    {
      u64 a = hist_state (h); setbit (stbits, a); setbit (trbits, a * 31 + ops[i] + 1);
      hist_op (h, ops[i]);
      if (errcat) { char b[100]; snprintf (b, sizeof b, " (at step %d)", i); strncat (errmsg, b, sizeof errmsg - strlen (errmsg) - 1); break; }
    }
  setbit (stbits, hist_state (h));
  if (errcat & want_mask) record_failure (errcat, sh->cur, errmsg);
}
/* enabledness is tracked on a cheap abstraction: prepared / bound flags and the variant of M */
struct hab { int cur[NHO], bnd[NHO], m; };
static void hist_dfs (int h, int depth, u8 *ops, int n, struct hab a, int useful)
{
  if (n == depth || stop_flag) { if (n && useful) hist_emit (h, ops, n); return; }
  for (int op = 0; op < HOPS; op++)
    {
      struct hab b = a; int use = useful;
      if (op < 18)
        {
          int o = op / 9, s = op / 3 % 3, v = op % 3;
          if (!uses_M[h][s] && v) continue;
          if (o == 1 && a.cur[0] < 0 && a.cur[1] < 0) continue;         /* objects are interchangeable */
          if (uses_M[h][s] && a.m != v) { for (int k = 0; k < NHO; k++) if (b.cur[k] >= 0 && uses_M[h][b.cur[k] / 3]) b.cur[k] = -1; b.m = v; }
          b.cur[o] = s * 3 + v;
        }
      else if (op < 20) { if (a.cur[op - 18] < 0) continue; use = 1; if (n == depth - 1) use = 2; }
      else if (op < 22) { if (a.cur[op - 20] < 0) continue; b.bnd[op - 20] = a.cur[op - 20]; }
      else if (op < 24) { int o = op - 22; if (a.bnd[o] < 0 || a.cur[o] != a.bnd[o]) continue; use = 2; }
      if (n == depth - 1 && (op < 18 || op == 20 || op == 21 || op >= 24)) continue;   /* the last step observes */
      ops[n] = op; hist_dfs (h, depth, ops, n + 1, b, use);
    }
}
static void hist_explore (int depth)
{
  u8 ops[16]; struct hab a = { { -1, -1 }, { -1, -1 }, -1 };
  hist_init ();
  for (int h = 0; h < NHS; h++) for (int d = 2; d <= depth; d++) hist_dfs (h, d, ops, 0, a, 0);
}

/* Two descriptions over the same pair of types x, y, under every pair of
   conventions, in every order of preparation and use.  */
static void pair_reset (T *t) { if (t->kind != K_STRUCT) return; t->ffi.size = t->ffi.alignment = 0; for (int i = 0; i < t->n; i++) pair_reset (t->f[i]); }
static int pair_prep (struct hobj *o, const struct sig *g)
{
  for (int i = 0; i < g->nargs; i++) o->at[i] = mk_ffi (g->args[i]);
  ffi_status st = ffi_prep_cif (&o->cif, g->abi, g->nargs, mk_ffi (g->ret), o->at);
  if (st != FFI_OK) err (E_STATUS, "preparation refused with status %d", st);
  o->cur = *g; return st == FFI_OK;
}
static void pair_run (T *x, T *y, int order, int a1, int a2)
{
  struct sig g[2]; memset (g, 0, sizeof g);
  errcat = 0; errmsg[0] = 0; HSTYLE = STYLE_PLAIN;
  g[0].abi = a1; g[0].nfixed = -1; g[0].ret = x; g[0].args[0] = y; g[0].args[1] = x; g[0].nargs = 2; g[0].pat = order & 3;
  g[1].abi = a2; g[1].nfixed = -1; g[1].ret = y; g[1].args[0] = x; g[1].args[1] = x; g[1].args[2] = y; g[1].nargs = 3;
  /* and once more at either parity of the stack words before it */
  for (int i = 0; i < 6 + (order & 1); i++) g[1].args[g[1].nargs++] = ty ("u8");
  g[1].args[g[1].nargs++] = x; g[1].args[g[1].nargs++] = ty ("s2");
  pair_reset (x); pair_reset (y);
  static const int ops[4][8] = { { 0,1,2,3,4,5,6,7 }, { 1,0,3,4,2,5,7,6 }, { 0,4,2,1,6,3,5,7 }, { 0,1,4,5,0,7,6,2 } };  /* 0,1 prep 2,3 call 4,5 bind 6,7 invoke */
  for (int i = 0; i < 8 && !errcat; i++)
    {
      int op = ops[order][i], k = op & 1; struct hobj *o = &HO[k]; struct sig s = g[k];
      CIF = &o->cif; HCUR = o;
      switch (op >> 1)
        {
        case 0: pair_prep (o, &g[k]); break;
        case 1: model_sig (&s); s.api = A_HCALL; run_forward (&s); break;
        case 2: o->ud = 0x99000 + k; if (ffi_prep_closure_loc (o->clo, &o->cif, (void*)handler_thunk, (void*)o->ud, o->code) != FFI_OK) err (E_STATUS, "closure refused"); break;
        case 3: model_sig (&s); s.api = A_HCLO; run_closure (&s); break;
        }
      setbit (stbits, ((u64)x->id << 40) ^ ((u64)y->id << 24) ^ (order * 8 + i + 1) * 64 ^ a1 * 8 ^ a2);
      setbit (trbits, ((u64)x->id << 40) ^ ((u64)y->id << 24) ^ (order * 8 + i + 1) * 64 ^ a1 * 8 ^ a2);
      if (errcat) { char b[100]; snprintf (b, sizeof b, " (at step %d)", i); strncat (errmsg, b, sizeof errmsg - strlen (errmsg) - 1); }
    }
}
static void pair_explore (int nt)
{
  hist_set_M (0, 0);
  int n = 0, stride = NU / nt + 1; T **v = malloc (NU * sizeof *v + sizeof R + 256);
  static const char *XT[] = { "{9*u8}", "{70*u8}", "{33*f}", "{65*u1}", "{5*u8}", "{8*u8}", "{17*u8}", "{35*d}", "{65*u8}", "{3*D}", "{129*u8}", "{40*{60*u8}}" }; for (int i = 0; i < 12; i++) v[n++] = ty (XT[i]);
  for (int i = 0; i < NR; i++) v[n++] = R[i];
  for (int i = 0; i < NU; i += stride) if (U[i]->size && U[i]->size < 600) v[n++] = U[i];
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int o = 0; o < 4; o++)
    {
      u64 my = idx++; if (stop_flag || my % W != (u64)w) continue;
      int a1 = FFI_UNIX64 + (i + o) % 3, a2 = FFI_UNIX64 + (j + o / 2) % 3;
      snprintf (sh->cur, sizeof sh->cur, "pair %d %d %d %s %s", o, a1, a2, v[i]->name, v[j]->name); sh->runs++;
      pair_run (v[i], v[j], o, a1, a2);
      if (errcat & want_mask) record_failure (errcat, sh->cur, errmsg);
    }
}
