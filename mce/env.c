/* Closure-memory explorer: P11, P14, P15, P21.  Histories of allocating,
   preparing, invoking and freeing closures are executed on the library over
   the simulated system of os.h; states are exact images of library memory.  */
#include "os.h"
#include <sys/wait.h>
#include <time.h>

#define MAXLIVE 400
struct lv { void *p, *code; size_t size; long ud; int kind; };
static struct lv L[MAXLIVE]; static int nl; static long next_ud; static ffi_cif CIF; static ffi_type *AT[1] = { &ffi_type_sint };
static long got_ud, got_arg; static int got_n; static int real_ntramp;
extern void *ffi_data_to_code_pointer (void *);
extern void *ffi_tramp_arch (size_t *, size_t *) __attribute__((weak));
void *mc_tramp_arch (size_t *sz, size_t *map)
{
  void *r = ffi_tramp_arch (sz, map); real_ntramp = *map / *sz;
  if (E.ntramp && *map / E.ntramp >= *sz) *sz = *map / E.ntramp / *sz * *sz;       /* use every k-th entry of the table */
  return r;
}
static void handler (ffi_cif *c, void *ret, void **av, void *ud) { got_n++; got_ud = (long)ud; got_arg = *(int*)av[0]; if (c != &CIF) got_ud = -1; *(ffi_arg*)ret = got_arg * 3 + 1; }
static void handler2 (ffi_cif *c, void *ret, void **av, void *ud) { got_n++; got_ud = ~(long)ud; got_arg = *(int*)av[0]; *(ffi_arg*)ret = got_arg * 3 + 1; }
static void rawhandler (ffi_cif *c, void *ret, ffi_raw *raw, void *ud) { got_n++; got_ud = (long)ud; got_arg = raw->sint; *(ffi_arg*)ret = got_arg * 3 + 1; }

/* the explorer itself uses memory the library handed out as the user of a closure would: a fault there is the library's */
static sigjmp_buf outer_env; static volatile int outer_armed; static u64 crash_at;
#define AS_USER(body) do { int sg2_ = sigsetjmp (outer_env, 1); if (!sg2_) { outer_armed = 1; body; outer_armed = 0; } else { outer_armed = 0; violate (V_ALL, "signal %d: memory at %p that belongs to a live closure cannot be used", sg2_, (void*)crash_at); } } while (0)
static void on_crash (int sig, siginfo_t *si, void *uc)
{
  if (!crash_armed && outer_armed && ((u64)si->si_addr - ABASE < NPAGE_MAX * PG || (u64)si->si_addr - BBASE < (u64)NSLOTS * SLOT)) { crash_at = (u64)si->si_addr; siglongjmp (outer_env, sig); }
  if (!crash_armed) { fprintf (stderr, "harness crash, signal %d at %p\n", sig, si->si_addr); _exit (3); }
  siglongjmp (crash_env, sig);
}
static u8 pat (int k, size_t o) { return (u8)(0x40 + k * 7 + o); }
static void fill_user (struct lv *l) { size_t lo = l->kind == 2 ? sizeof (ffi_raw_closure) : sizeof (ffi_closure); for (size_t o = lo; o < l->size && o < lo + 64; o++) ((u8*)l->p)[o] = pat (1, o); for (size_t o = l->size > 64 ? l->size - 64 : 0; o < l->size; o++) if (o >= lo) ((u8*)l->p)[o] = pat (1, o); }
static int user_ok (struct lv *l) { size_t lo = l->kind == 2 ? sizeof (ffi_raw_closure) : sizeof (ffi_closure); for (size_t o = lo; o < l->size && o < lo + 64; o++) if (((u8*)l->p)[o] != pat (1, o)) return 0; for (size_t o = l->size > 64 ? l->size - 64 : 0; o < l->size; o++) if (o >= lo && ((u8*)l->p)[o] != pat (1, o)) return 0; return 1; }
static struct page *pg_of (void *p) { u64 a = (u64)p; if (a < ABASE || a >= ABASE + NPAGE * PG) return NULL; return &PGS[(a - ABASE) / PG]; }

static int prep (struct lv *l, int which)
{
  ffi_status st = l->kind == 2 ? ffi_prep_raw_closure_loc ((ffi_raw_closure *)l->p, &CIF, rawhandler, (void*)l->ud, l->code)
                               : ffi_prep_closure_loc (l->p, &CIF, which ? handler2 : handler, (void*)(which ? ~l->ud : l->ud), l->code);
  if (st != FFI_OK) violate (V_P11|V_P14, "closure preparation refused with status %d", st);
  return st == FFI_OK;
}
static void check_one (int i)
{
  struct lv *l = &L[i]; void *c = ffi_data_to_code_pointer (l->p);
  if (c != l->code) { violate (V_P11|V_P14, "closure %d: data-to-code lookup gives %p, allocation gave %p", i, c, l->code); return; }
  if (!user_ok (l)) { violate (V_P11|V_P14, "closure %d: its memory was changed by something else", i); return; }
  struct page *q = pg_of (l->code);
  if (!q || !q->live || !(q->prot & PROT_EXEC)) { violate (V_P11|V_P14, "closure %d: code address %p is not executable memory", i, l->code); return; }
  got_n = 0; got_ud = 0; int arg = 17 + i, r = ((int (*) (int))l->code) (arg);
  if (got_n != 1 || got_ud != l->ud || got_arg != arg || r != arg * 3 + 1)
    violate (V_P11|V_P14, "closure %d (user pointer %ld): its handler ran %d times with user pointer %ld, argument %ld, result %d", i, l->ud, got_n, got_ud, got_arg, r);
}
static void verify_all (void) { for (int i = 0; i < nl && !vio; i++) check_one (i); }
static int ntables (void) { int n = 0; for (size_t i = 0; i < NPAGE; i++) if (PGS[i].live && (PGS[i].prot & PROT_EXEC) && !(PGS[i].prot & PROT_WRITE) && PGS[i].file && !PGS[i].shared) n++; return n; }
static void check_pages (void)
{
  if (nheld) violate (V_ALL, "an operation returned with %d lock(s) held", nheld);
  dead_check ();
  if (nname_live) violate (V_P15|V_P14, "a temporary file's name is left in the file system");
}
/* an operation of the library under crash protection */
static int guard_begin (void) { return 0; }
#define GUARD(body) do { int sg_ = sigsetjmp (crash_env, 1); if (!sg_) { crash_armed = 1; body; crash_armed = 0; } else { crash_armed = 0; if (sg_ != 1000) violate (V_ALL, sg_ == SIGALRM || sg_ == SIGVTALRM ? "the library does not return (hang)" : "crash, signal %d", sg_); } } while (0)

static int op_alloc (size_t size, int kind)
{
  void *code = (void*)0x1234, *p = NULL;
  GUARD (p = ffi_closure_alloc (size, &code));
  if (vio) return 0;
  check_pages ();
  if (!p) return 0;
  struct lv n = { p, code, size, ++next_ud, kind };
  u64 a = (u64)p;
  if (a & 7) violate (V_P11|V_P14, "closure memory %p is misaligned", p);
  for (u64 x = a & ~(PG-1); x < a + size; x += PG) { struct page *q = pg_of ((void*)x); if (!q || !q->live || !(q->prot & PROT_WRITE)) { violate (V_P11|V_P14, "closure memory %p..%p is not writable memory of the library", p, (char*)p + size); return 0; } }
  for (int i = 0; i < nl; i++)
    {
      if (a < (u64)L[i].p + L[i].size && (u64)L[i].p < a + size) { violate (V_P11|V_P14, "new closure %p (%zu bytes) overlaps live closure %d at %p (%zu bytes)", p, size, i, L[i].p, L[i].size); return 0; }
      if (code == L[i].code) { violate (V_P11|V_P14, "new closure has the code address %p of live closure %d", code, i); return 0; }
    }
  L[nl++] = n;
  GUARD (prep (&L[nl - 1], 0)); fill_user (&L[nl - 1]);
  return 1;
}
static void op_free (int i)
{
  struct lv l = L[i]; memmove (&L[i], &L[i + 1], (nl - i - 1) * sizeof *L); nl--;
  /* the memory belongs to the user until it is freed; only the part ffi_closure_free reads is kept */
  size_t keep = 64 < l.size ? 64 : l.size; (void) keep;
  GUARD (ffi_closure_free (l.p)); check_pages ();
}
static void op_reprep (int i) { L[i].ud = ++next_ud; GUARD (prep (&L[i], 1)); }

/* ------------------------------------------------------------------ */
struct shard { u64 runs, ops; int nfail; char cur[700], fail[4][1400]; u64 fails, extra; volatile int done, started; char sample[3][300]; int nsample; };
static struct shard *sh, *shards; static int W = 8, w, stop_flag, thorough; static u64 idx; static int want;
static size_t want_pages = NPAGE_MAX;
#define HB (1ul << 29)
static u64 *visited; static u64 *n_states, *n_trans, *n_bad;      /* shared */
static int visit (u64 h)
{
  if (!h) h = 1;
  for (u64 i = h & (HB / 8 - 1);; i = (i + 1) & (HB / 8 - 1))
    { u64 v = __atomic_load_n (&visited[i], __ATOMIC_RELAXED); if (v == h) return 0; if (!v) { u64 z = 0; if (__atomic_compare_exchange_n (&visited[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add (n_states, 1, __ATOMIC_RELAXED); return 1; } if (z == h) return 0; } }
}
static void reset (void) { os_reset (); NPAGE = want_pages; nl = 0; next_ud = 100; }
static int env_text (char *b) { int o = sprintf (b, "env %d %d %d %d %d %d", E.maps, E.selinux, E.pax, E.rwx, E.place, E.ntramp); for (int i = 0; i < NCAND; i++) o += sprintf (b + o, " %d", E.cand[i]); return o; }
static void report (void)
{
  sh->runs++;
  if (sh->nsample < 3 && sh->runs % 701 == 3) snprintf (sh->sample[sh->nsample++], 300, "%s", sh->cur);
  if (vio & V_MACH) { if (sh->nfail < 4) snprintf (sh->fail[sh->nfail++], 1400, "%s\nMACHINERY %s", sh->cur, vmsg); stop_flag = 1; sh->fails++; }
  else if (vio && !(vio & want) && getenv ("MCOTHER")) fprintf (stderr, "OTHER %d %s: %s\n", vio, sh->cur, vmsg);
  else if (vio & want) { if (sh->nfail < 4) snprintf (sh->fail[sh->nfail++], 1400, "%s\n%s", sh->cur, vmsg); sh->fails++; if (__atomic_add_fetch (n_bad, 1, __ATOMIC_RELAXED) >= 3) stop_flag = 1; }
  if (__atomic_load_n (n_bad, __ATOMIC_RELAXED) >= 3) stop_flag = 1;
}
static const size_t SZ[] = { sizeof (ffi_closure), 1400, 5000, 400000, 1600000, sizeof (ffi_raw_closure), 700, 3000, 104, 200, 240, 248, 600 };
static const int SKIND[16] = { 0, 0, 0, 0, 0, 2 };

/* ---- histories ----  ops: 0..12 allocate SZ[op]; 16.. free live[op-16]; 200 re-prepare oldest; 201 newest; 202 free newest; 203 free middle;
   204 free 128th; 205 free 127th; 210 churn; 220+k allocate k of SZ[0] */
static int RT (void) { return real_ntramp ? real_ntramp : 102; }
static int bulk (int k) { int R = RT (), N[] = { 3, 4, 5, 8, 9, R - 2, R - 1, R, R + 1, 2 * R - 2, 2 * R, 2 * R + 1, 3 * R }; return N[k]; }
static void do_op (int op)
{
  sh->ops++;
  if (op < 16) { if (!op_alloc (SZ[op], SKIND[op]) && !vio && !faults_on) violate (V_P11|V_P14, "allocation of %zu bytes fails although the system refuses nothing", SZ[op]); }
  else if (op < 200) { if (op - 16 < nl) op_free (op - 16); }
  else if (op == 200) { if (nl) op_reprep (0); }
  else if (op == 201) { if (nl) op_reprep (nl - 1); }
  else if (op == 202) { if (nl) op_free (nl - 1); }
  else if (op == 203) { if (nl) op_free (nl / 2); }
  else if (op == 204) { if (nl > RT ()) op_free (RT ()); }
  else if (op == 205) { if (nl > RT () - 1) op_free (RT () - 1); }
  else if (op == 210) { for (int i = 0; i < 4200 && !vio; i++) { int k = nl; if (op_alloc (700, 0)) op_free (k); } }
  else { for (int i = 0; i < bulk (op - 220) && !vio; i++) do_op (0); }
}
static u64 full_hash (void) { u64 h = os_hash (); for (int i = 0; i < nl; i++) h = hmix (hmix (h, (u64)L[i].p), (u64)L[i].code ^ L[i].size); return h; }
static int run_ops (const u8 *ops, int n, int verify_from)
{
  next_ud = 100;
  for (int i = 0; i < n && !vio; i++)
    {
      do_op (ops[i]);
      if (!vio && i >= verify_from) GUARD (verify_all ());
      if (vio) { char b[40]; snprintf (b, sizeof b, " (at step %d)", i); strncat (vmsg, b, sizeof vmsg - strlen (vmsg) - 1); }
    }
  return vio;
}
static int hist_text (char *b, const char *mode, const u8 *ops, int n) { int o = sprintf (b, "%s ", mode); o += env_text (b + o); o += sprintf (b + o, " ops"); for (int i = 0; i < n; i++) o += sprintf (b + o, " %d", ops[i]); return o; }

/* breadth-first search over library states */
#define MAXD 24
struct node { u8 n, ops[MAXD]; };
static struct node *lvl[2]; static u64 *lvl_n[2]; static u64 lvl_cap = 6000000;
static void bfs (struct env env, const u8 *prefix, int np, const u8 *allocs, int na, const u8 *frees, int nf, int maxlive, int depth, u64 max_states)
{
  want_pages = 768; for (int i = 0; i < na; i++) if (allocs[i] == 3 || allocs[i] == 4) want_pages = NPAGE_MAX;
  E = env; madvise (visited, HB, MADV_REMOVE);      /* states of other systems, or reached with other depths to go, do not count */
  *lvl_n[0] = 1; lvl[0][0].n = np; memcpy (lvl[0][0].ops, prefix, np); int cur = 0; u64 s0 = *n_states;
  for (int d = 0; d < depth && *lvl_n[cur]; d++)
    {
      *lvl_n[cur ^ 1] = 0; u64 n = *lvl_n[cur]; static u64 *next; if (!next) next = mmap (0, 64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); *next = 0;
      pid_t pid[64]; fflush (0);
      int nw = n < 64 ? 1 : W;
      for (w = 0; w < nw; w++) if (!(pid[w] = fork ()))
        {
          sh = &shards[w]; sh->done = 0; struct itimerval_; 
          for (;;)
            {
              u64 i0 = __atomic_fetch_add (next, 16, __ATOMIC_RELAXED); if (i0 >= n || stop_flag) break;
              for (u64 i = i0; i < i0 + 16 && i < n && !stop_flag; i++)
                {
                  struct node *b = &lvl[cur][i];
                  u8 cand[64]; int nc = 0;
                  /* number of live closures after the history */
                  int live = 0; for (int k = 0; k < b->n; k++) { int op = b->ops[k]; if (op < 16) live++; else if (op < 200 || op == 202 || op == 203 || op == 204 || op == 205) live--; else if (op >= 220) live += bulk (op - 220); }
                  if (live < maxlive) for (int k = 0; k < na; k++) cand[nc++] = allocs[k];
                  if (live > 0) { if (nf) { for (int k = 0; k < nf; k++) cand[nc++] = frees[k]; } else for (int k = 0; k < live; k++) cand[nc++] = 16 + k; }
                  for (int k = 0; k < nc && !stop_flag; k++)
                    {
                      u8 ops[MAXD]; memcpy (ops, b->ops, b->n); ops[b->n] = cand[k];
                      if ((cand[k] == 204 && live < RT () + 1) || (cand[k] == 205 && live < RT ())) continue;
                      hist_text (sh->cur, "bfs", ops, b->n + 1);
                      alarm (30); reset (); AS_USER (run_ops (ops, b->n + 1, b->n)); alarm (0);
                      report (); __atomic_fetch_add (n_trans, 1, __ATOMIC_RELAXED);
                      if (vio) continue;
                      if (visit (full_hash ()) && d + 1 < depth)
                        { u64 o = __atomic_fetch_add (lvl_n[cur ^ 1], 1, __ATOMIC_RELAXED); if (o < lvl_cap) { lvl[cur ^ 1][o].n = b->n + 1; memcpy (lvl[cur ^ 1][o].ops, ops, b->n + 1); } else __atomic_fetch_sub (lvl_n[cur ^ 1], 1, __ATOMIC_RELAXED); }
                    }
                }
            }
          sh->done = 1; _exit (0);
        }
      for (int i = 0; i < nw; i++) { int st; waitpid (pid[i], &st, 0); if (!WIFEXITED (st) || WEXITSTATUS (st)) { fprintf (stderr, "worker died: %x (%s)\n", st, shards[i].cur); exit (3); } if (shards[i].nfail) stop_flag = 1; }
      cur ^= 1;
      if (stop_flag || *n_states - s0 > max_states) break;
    }
  if (getenv ("MCPROF")) { static time_t t0; time_t t = time (0); fprintf (stderr, "bfs %d s, %lu states (cap %lu), depth %d, next level %lu, prefix %d(%d) env maps %d rwx %d place %d nt %d na %d a0 %d\n", t0 ? (int)(t - t0) : 0, *n_states - s0, max_states, depth, *lvl_n[cur], np, np ? prefix[0] : 0, env.maps, env.rwx, env.place, env.ntramp, na, allocs[na - 1]); t0 = t; }
}
static struct env env_static (int place, int nt) { struct env e; memset (&e, 0, sizeof e); e.place = place; e.ntramp = nt; return e; }
static struct env env_rwx (int place) { struct env e = env_static (place, 0); e.maps = MAPS_NOFILE; for (int i = 0; i < NCAND; i++) e.cand[i] = C_ABSENT; return e; }
static struct env env_dual (int place, int selinux) { struct env e = env_static (place, 0); e.maps = MAPS_NOFILE; e.cand[K_MEMFD] = C_NOEXEC; if (selinux) e.selinux = selinux; else e.rwx = EACCES; return e; }

static void explore_p11 (void)
{
  static const u8 small[] = { 0 }, two[] = { 0, 1 }, three[] = { 0, 1, 2 }, mix[] = { 0, 5, 7 }, big[] = { 3, 4, 0 };
  static const u8 edge[] = { 16, 17, 202, 203, 204, 205 };
  int X = thorough;
  for (int pl = 0; pl < 4 && !stop_flag; pl++)
    {
      u64 cap = X ? 160000 : 60000;
      /* static trampolines, tables of 4 and 2 entries: list surgery in every order */
      bfs (env_static (pl, 4), NULL, 0, small, 1, NULL, 0, X ? 13 : 10, X ? 18 : 14, cap);
      bfs (env_static (pl, 2), NULL, 0, small, 1, NULL, 0, X ? 8 : 6, X ? 18 : 14, cap);
      bfs (env_static (pl, 4), NULL, 0, two, 2, NULL, 0, 8, X ? 12 : 9, cap);
      /* tables of the real size, around their boundaries */
      for (int k = 5; k <= 12; k++) { u8 pre[1] = { 220 + k }; if (!X && (k & 1) == (pl & 1)) continue; bfs (env_static (pl, 0), pre, 1, small, 1, edge, 6, 390, X ? 6 : 4, cap); }
      /* heap segments: static, read-write-execute, dual mapping */
      struct env es[3] = { env_static (pl, 0), env_rwx (pl), env_dual (pl, pl & 1 ? 1 : 0) };
      for (int e = 0; e < 3; e++)
        {
          bfs (es[e], NULL, 0, three, 3, NULL, 0, 7, X ? 11 : 8, cap);
          bfs (es[e], NULL, 0, mix, 3, NULL, 0, 7, X ? 10 : 7, cap);
          static const u8 bins[] = { 0, 9, 11 }, bins2[] = { 8, 10, 12 };
          if (e == 0 || X) { bfs (es[e], NULL, 0, bins, 3, NULL, 0, 7, X ? 10 : 8, cap); bfs (es[e], NULL, 0, bins2, 3, NULL, 0, 7, X ? 10 : 7, cap); }
          bfs (es[e], NULL, 0, big, 3, NULL, 0, 5, X ? 9 : 6, X ? 20000 : 1500);
          u8 pre[4] = { 2, 1, 210, 2 }; bfs (es[e], pre, 4, three, 3, NULL, 0, 7, X ? 5 : 3, cap);
        }
      u8 rp[2] = { 200, 201 }, al[3] = { 0, 200, 201 }; (void) rp;
      bfs (env_static (pl, 4), NULL, 0, al, 3, NULL, 0, 5, X ? 9 : 7, cap);
    }
}

/* ---- resource accounting ---- */
struct led { int pages, fds, blks; long bytes; };
static struct led ledger (void) { return (struct led){ npages_live, nfd_live, nblk_live, blk_bytes }; }
static int led_gt (struct led a, struct led b) { return (a.pages > b.pages && !munmap_refused) || a.fds > b.fds || a.blks > b.blks || a.bytes > b.bytes; }
static void free_all (int order)
{
  while (nl && !vio) op_free (order == 0 ? nl - 1 : order == 1 ? 0 : order == 2 ? nl / 2 : (nl * 7 + 3) % nl);
}
static double blk_ratio = -1;
static void once_check (int mask)
{
  int nt = ntables (), streams = 0, files = 0, mnt = 0;
  for (int i = 1; i < NFILE; i++) if (F[i].used) { if (F[i].kind == FK_STREAM) streams++; else files++; }
  for (int i = 0; i < norder; i++) if (order_seen[i] >= K_MTAB) mnt = 1;
  for (int i = K_MEMFD; i <= K_HOME; i++) if (E.cand[i] == C_OK || E.cand[i] == C_MKSTEMP) { if (!faulted) mnt = mnt; }
  if (streams > (mnt || E.cand[K_MTAB] == C_OK ? 1 : 0) && !(faulted && streams <= 1)) violate (mask, "%d stream(s) left open", streams);
  for (int i = 1; i < NFILE; i++) if (F[i].used && F[i].kind != FK_STREAM && !F[i].mapped) violate (mask, "descriptor of a file that was never mapped (place %d) is kept", F[i].cand);
  if (files > 2) violate (mask, "%d descriptors held", files);
  if (blk_ratio >= 0 && !munmap_refused && nblk_live != (int)(blk_ratio * nt)) violate (mask, "%d allocated blocks held for %d trampoline tables (%g each in the healthy case)", nblk_live, nt, blk_ratio);
}
static void calibrate (void)
{
  E = env_static (0, 4); reset (); for (int i = 0; i < 3; i++) op_alloc (SZ[0], 0); int a = nblk_live, n = ntables (); for (int i = 0; i < 9; i++) op_alloc (SZ[0], 0); int b = nblk_live, m = ntables ();
  if (vio) { blk_ratio = -1; return; }
  blk_ratio = n && m > n && a % n == 0 && a / n == b / m && b % m == 0 ? a / n : -1;
}
/* ---- P21: closed histories, repeated ---- */
static int dual_env (void) { return E.maps != MAPS_OK && (E.selinux == 1 || E.selinux == 2 || E.pax == 2 || E.pax == 3 || E.rwx); }
static void closed_round (const u8 *ops, int n, int order)
{
  next_ud = 100;
  for (int i = 0; i < n && !vio; i++) do_op (ops[i]);
  if (!vio) GUARD (verify_all ());
  GUARD (free_all (order)); if (nl && !vio) free_all (order);
}
static struct led led_max (struct led a, struct led b) { if (b.pages > a.pages) a.pages = b.pages; if (b.fds > a.fds) a.fds = b.fds; if (b.blks > a.blks) a.blks = b.blks; if (b.bytes > a.bytes) a.bytes = b.bytes; return a; }
static void closed_run (const u8 *ops, int n, int order)
{
  struct led l, l2; int suspect = 0, idle = 0;
  reset ();
  for (int r = 0; r < 7 && !vio; r++)
    {
      closed_round (ops, n, order); l = ledger ();
      if (r == 2) l2 = l;
      if (r >= 3 && led_gt (l, l2)) suspect = 1;
      if (!vio && ntables () > 2) violate (V_P21, "%d trampoline tables kept although no closure is live", ntables ());
      if (!vio) once_check (V_P21);
      if (npages_live > idle) idle = npages_live;
    }
  if (suspect && !vio)
    {
      /* bounded, depending on where things happen to be placed, or growing?  growing: every further block of rounds holds more */
      struct led m[5]; int grow = 1;
      for (int k = 0; k < 5 && !vio; k++)
        {
          memset (&m[k], 0, sizeof *m);
          for (int r = 0; r < 24 && !vio; r++) { closed_round (ops, n, order); m[k] = led_max (m[k], ledger ()); }
          if (k && !led_gt (m[k], m[k - 1])) { grow = 0; break; }
        }
      if (!vio && grow) violate (V_P21, "repeating the history makes what the library holds grow without bound: at most %d pages, %d descriptors, %d blocks (%ld bytes) in 31 rounds, %d pages, %d descriptors, %d blocks (%ld bytes) after 96 more", m[0].pages, m[0].fds, m[0].blks, m[0].bytes, m[4].pages, m[4].fds, m[4].blks, m[4].bytes);
    }
  /* in contiguous memory the free tail beyond the 2 MB threshold goes back to the system */
  if (!vio && E.place == 0 && !dual_env () && !ntables () && idle > 512 + 32) violate (V_P21, "%d pages kept although no closure is live and all memory was contiguous", idle);
}
/* Small losses inside the heap show only after many rounds: the heap asks the system for 64 KB at a time. */
static void closed_long (const u8 *ops, int n, int order)
{
  int mx[4] = { 0 };
  reset (); op_alloc (SZ[1], 0); nl = 0;                       /* one closure stays, so that tables and heap do */
  for (int r = 0; r < 3300 && !vio; r++)
    {
      next_ud = 100; for (int i = 0; i < n && !vio; i++) do_op (ops[i]);
      free_all (order);
      if (npages_live > mx[r / 1100]) mx[r / 1100] = npages_live;
    }
  if (!vio && mx[2] > mx[1] && mx[1] > mx[0]) violate (V_P21, "repeating the history makes the library's memory grow: %d, %d, %d pages within 1100, 2200, 3300 rounds", mx[0], mx[1], mx[2]);
}
static void long_emit (const u8 *ops, int n, int order)
{
  u64 my = idx++; if (stop_flag || my % W != (u64)w) return;
  char m[20]; sprintf (m, "long%d", order); hist_text (sh->cur, m, ops, n); alarm (30); AS_USER (closed_long (ops, n, order)); alarm (0); report ();
  __atomic_fetch_add (n_trans, n * 3300, __ATOMIC_RELAXED); if (!vio) visit (full_hash ());
}
static void (*emit) (const u8 *, int, int);
static void closed_emit (const u8 *ops, int n, int order)
{
  u64 my = idx++; if (stop_flag || my % W != (u64)w) return;
  char m[20]; sprintf (m, "closed%d", order); hist_text (sh->cur, m, ops, n); alarm (30); AS_USER (closed_run (ops, n, order)); alarm (0); report ();
  __atomic_fetch_add (n_trans, n * 14, __ATOMIC_RELAXED); if (!vio) visit (full_hash ());
}
static void closed_all (const u8 *al, int na, int nfree, int depth)
{
  /* all histories over the allocation sizes and frees of the k-th live closure */
  u8 ops[16]; int c[16] = { 0 }, base = na + nfree;
  for (int n = 1; n <= depth; n++)
    {
      memset (c, 0, sizeof c);
      for (;;)
        {
          int live = 0, ok = 1;
          for (int i = 0; i < n && ok; i++) { if (c[i] < na) { ops[i] = al[c[i]]; live++; } else { int k = c[i] - na; if (k >= live) ok = 0; ops[i] = 16 + k; live--; } }
          if (ok && c[0] < na) for (int o = 0; o < 4; o++) emit (ops, n, o);
          int i = 0; while (i < n && ++c[i] == base) c[i++] = 0;
          if (i == n || stop_flag) break;
        }
    }
}
static void explore_p21 (void)
{
  static const u8 a1[] = { 0 }, a2[] = { 0, 1 }, a3[] = { 0, 2, 7 }, ab[] = { 3, 4, 0 }, s1[] = { 0, 9 }, s2[] = { 8, 11, 12 }, s3[] = { 5, 10, 6 };
  calibrate ();
  emit = long_emit; E = env_static (0, 4); want_pages = 768;
  closed_all (s1, 2, 2, thorough ? 6 : 5); closed_all (s2, 3, 2, thorough ? 5 : 4); closed_all (s3, 3, 2, thorough ? 5 : 4);
  E = env_rwx (1); closed_all (s1, 2, 2, thorough ? 5 : 4); E = env_dual (0, 0); closed_all (s1, 2, 2, thorough ? 5 : 3);
  emit = closed_emit; want_pages = NPAGE_MAX;
  for (int pl = 0; pl < 4; pl++)
    {
      struct env es[] = { env_static (pl, 4), env_rwx (pl), env_dual (pl, 0), env_dual (pl, 1), env_static (pl, 2) };
      for (int e = 0; e < 5; e++)
        {
          E = es[e];
          closed_all (a1, 1, 4, thorough ? 9 : 7); closed_all (a2, 2, 3, thorough ? 7 : 5); closed_all (a3, 3, 2, thorough ? 6 : 5); closed_all (ab, 3, 2, thorough ? 5 : 4);
          for (int k = 0; k < 5; k++) for (int m = 0; m < 5; m++) for (int o = 0; o < 4; o++) { u8 ops[4] = { 220 + k, 203, 220 + m, 202 }; closed_emit (ops, 4, o); }
        }
      E = env_static (pl, 0);
      for (int k = 5; k <= 12; k++) for (int o = 0; o < 4; o++) { u8 ops[3] = { 220 + k, 203, 0 }; closed_emit (ops, 3, o); u8 o2[5] = { 220 + k, 204, 205, 2, 4 }; closed_emit (o2, 5, o); }
      for (int e = 0; e < 4; e++) { E = es[e]; for (int o = 0; o < 4; o++) { u8 ops[4] = { 2, 210, 4, 210 }; closed_emit (ops, 4, o); u8 o2[5] = { 4, 4, 16, 210, 3 }; closed_emit (o2, 5, o); } }
    }
}

/* ---- P14: every failure ---- */
static int possible (void);
static const u8 FH[][8] = { { 0, 255 }, { 0, 0, 1, 255 }, { 1, 1, 1, 16, 2, 255 }, { 0, 0, 0, 0, 0, 255 }, { 2, 16, 2, 0, 255 }, { 0, 16, 0, 255 }, { 4, 4, 16, 16, 0, 2, 255 }, { 0, 4, 4, 17, 17, 2, 255 } };
#define NFH 8
static int repeat_dev;       /* the deviation recurs in repeated attempts */
static void fault_run (int h, int probe_only)
{
  struct led l0, l1, l2; const u8 *ops = FH[h]; int start, i;
  int plan[4], alt[4], np = ndev; for (i = 0; i < ndev; i++) plan[i] = ndev_at[i], alt[i] = dev_alt[i];
  reset (); faults_on = 1; ndev = np;
  int nattempt_fail = 0;
  for (i = 0; ops[i] != 255 && !vio; i++)
    {
      l0 = ledger (); start = ncall; int before = faulted;
      if (ops[i] >= 16) { if (nl > ops[i] - 16) op_free (ops[i] - 16); }
      else if (!op_alloc (SZ[ops[i]], SKIND[ops[i]]) && !vio)
        {
          nattempt_fail++;
          if (faulted == before && !before && possible ()) violate (V_P14, "allocation fails although the system refuses nothing");
          /* the same refusals again and again must not accumulate anything */
          if (!vio && faulted > before)
            {
              struct led a[5]; int bad = 0; u8 *q = NULL; (void) q;
              for (int r = 0; r < 5 && !vio; r++)
                {
                  for (int k = 0; k < np; k++) if (plan[k] >= start) ndev_at[k] = ncall + (plan[k] - start);
                  int c0 = ncall, k = nl; if (op_alloc (SZ[ops[i]], SKIND[ops[i]])) { bad = 1; if (!vio) op_free (k); }
                  (void) c0; a[r] = ledger ();
                }
              for (int k = 0; k < np; k++) ndev_at[k] = plan[k];
              if (!vio && led_gt (a[4], a[1]) && led_gt (a[3], a[1]) && led_gt (a[2], a[1])) violate (V_P14, "repeated failing attempts accumulate resources: %d pages %d descriptors %d blocks, then %d %d %d", a[1].pages, a[1].fds, a[1].blks, a[4].pages, a[4].fds, a[4].blks);
              (void) bad;
            }
        }
      if (!vio) { int f = faults_on; faults_on = 0; GUARD (verify_all ()); faults_on = f; }
      if (!vio) once_check (V_P14);
      if (vio) { char b[60]; snprintf (b, sizeof b, " (at step %d)", i); strncat (vmsg, b, sizeof vmsg - strlen (vmsg) - 1); }
    }
  int calls = ncall;
  /* the system is healthy again */
  faults_on = 0;
  if (!vio && !probe_only)
    {
      int ok = 0;
      for (int r = 0; r < 2 && !ok && !vio; r++) ok = op_alloc (SZ[1], 0);
      if (!vio && !ok && possible ()) violate (V_P14, "allocation still fails after the system has recovered");
      if (!vio) GUARD (verify_all ());
      if (!vio) GUARD (free_all (0));
      for (int r = 0; r < 3 && !vio; r++) { for (int k = 0; k < 6 && !vio; k++) op_alloc (SZ[k % 3], 0); if (!vio) GUARD (verify_all ()); GUARD (free_all (r)); if (r == 0) l1 = ledger (); }
      l2 = ledger ();
      if (!vio && led_gt (l2, l1)) violate (V_P14, "after the failure every round of allocation and release keeps more: %d pages %d descriptors %d blocks, then %d %d %d", l1.pages, l1.fds, l1.blks, l2.pages, l2.fds, l2.blks);
      if (!vio) once_check (V_P14);
    }
  ncall = calls;
}
static void fault_emit (int h)
{
  u64 my = idx++; if (stop_flag || my % W != (u64)w) return;
  int o = sprintf (sh->cur, "fault %d ", h); o += env_text (sh->cur + o); o += sprintf (sh->cur + o, " dev"); for (int i = 0; i < ndev; i++) o += sprintf (sh->cur + o, " %d %d", ndev_at[i], dev_alt[i]);
  for (int i = 0; i < ndev; i++) if (ndev_at[i] < MAXCH && callname[ndev_at[i]] && o < 600) ;
  alarm (30); AS_USER (fault_run (h, 0)); alarm (0); report (); __atomic_fetch_add (n_trans, 1, __ATOMIC_RELAXED); if (!vio) visit (full_hash ());
}
/* all sets of up to `left' deviations, in increasing position: the run is repeated because a deviation changes what follows */
static void fault_dfs (int h, int from, int left)
{
  static u8 na_[8][MAXCH]; int n;
  if (stop_flag) return;
  fault_emit (h);
  if (!left) return;
  for (int i = 0; i < MAXCH; i++) nalt[i] = 0;
  { alarm (30); AS_USER (fault_run (h, 1)); alarm (0); n = ncall < MAXCH ? ncall : MAXCH; memcpy (na_[left], nalt, n); }
  for (int p = from; p < n && !stop_flag; p++) for (int a = 1; a <= na_[left][p]; a++)
    { ndev_at[ndev] = p; dev_alt[ndev] = a; ndev++; fault_dfs (h, p + 1, left - 1); ndev--; }
}
static void explore_p14 (void)
{
  calibrate ();
  struct env es[24]; int n = 0;
  es[n++] = env_static (0, 4); es[n++] = env_static (1, 2); es[n++] = env_rwx (0); es[n++] = env_dual (0, 0); es[n++] = env_dual (1, 1); es[n++] = env_dual (2, 2);
  struct env e = env_static (0, 4); e.maps = MAPS_NOFILE; es[n++] = e;                               /* trampolines from a temporary file */
  e.cand[K_MEMFD] = C_ABSENT; es[n++] = e; e.cand[K_LIBFFI] = C_MKSTEMP; es[n++] = e;
  e = env_static (0, 4); e.maps = MAPS_OTHER; es[n++] = e; e.maps = MAPS_NOOPEN; es[n++] = e; e.maps = MAPS_DENIED; es[n++] = e;
  e = env_dual (0, 0); e.pax = 2; e.rwx = 0; e.cand[K_MEMFD] = C_NOSPACE; es[n++] = e;
  e = env_dual (0, 1); e.cand[K_MEMFD] = C_SHORT; e.cand[K_LIBFFI] = C_NOSPACE; e.cand[K_TMPDIR] = C_MKSTEMP_NOEXEC; es[n++] = e;
  e = env_dual (3, 0); for (int i = 0; i < K_MTAB; i++) e.cand[i] = C_ABSENT; e.cand[K_MTAB] = C_NOEXEC; e.cand[K_MTAB2] = C_READONLY; es[n++] = e;
  e.cand[K_MTAB3] = C_NOSPACE; e.cand[K_PM] = C_NOEXEC; es[n++] = e;
  e = env_dual (0, 1); for (int i = 0; i < NCAND; i++) e.cand[i] = C_ABSENT; es[n++] = e;                        /* nothing works */
  for (int i = 0; i < n; i++) for (int h = 0; h < NFH; h++) { E = es[i]; ndev = 0; int d = thorough && h != 6 ? 3 : 2; if (!thorough && h == 6) d = 1; fault_dfs (h, 0, d); if (stop_flag) return; }
}

/* ---- P15: every configuration ---- */
static int c_openable (int c) { int s = E.cand[c]; if (c == K_MEMFD && (s == C_MKSTEMP || s == C_MKSTEMP_NOEXEC)) return 0; if (s == C_ABSENT || s == C_READONLY || s == C_NOACCESS) return 0; if (c >= K_MTAB && s == C_NOEXECOPT) return 0; return 1; }
static int c_usable (int c) { int s = E.cand[c]; return c_openable (c) && (s == C_OK || s == C_MKSTEMP || (s == C_NOEXECOPT && c < K_MTAB)); }
static int c_first (int (*f) (int)) { for (int i = 0; i < NCAND; i++) { if (i >= K_MTAB && i <= K_MTAB3 && E.cand[K_MTAB] == C_ABSENT) continue; if (i >= K_PM && E.cand[K_PM] == C_ABSENT && E.selinux != 2) continue; if (f (i)) return i; } return -1; }
static int policy (void) { return E.selinux == 1 || E.selinux == 2 || E.pax == 2 || E.pax == 3; }
static int tramps_surely (void) { int c = c_first (c_openable); return E.maps == MAPS_OK || (c >= 0 && c_usable (c)); }
static int possible (void) { return tramps_surely () || (!policy () && !E.rwx) || c_first (c_usable) >= 0; }
static void config_run (void)
{
  reset ();
  int want_ok = possible (), got = 0, n = 0; static const u8 seq[] = { 0, 1, 2, 0, 4, 1 };
  for (int i = 0; i < 6 && !vio; i++) { n++; int ok = op_alloc (SZ[seq[i]], 0); got += ok; if (!ok && want_ok && !vio && !(tramps_surely ())) { ok = op_alloc (SZ[seq[i]], 0); got += ok; } if (!ok && want_ok && !vio) violate (V_P14|V_P15, "allocation %d fails although a usable place exists", i); if (!vio) GUARD (verify_all ()); }
  if (vio) return;
  if (rwx_seen && tramps_surely ()) violate (V_P15, "writable and executable memory is mapped although static trampolines can be used");
  for (size_t i = 0; i < NPAGE && !vio; i++) if (PGS[i].live && (PGS[i].prot & PROT_WRITE) && (PGS[i].prot & PROT_EXEC) && (policy () || tramps_surely ())) violate (V_P15, "writable and executable page");
  int fu = c_first (c_usable);
  for (int i = 0; i < nl && !vio; i++)
    {
      struct page *d = pg_of (L[i].p), *c = pg_of (L[i].code);
      if (c == NULL || d == NULL) { violate (V_P15|V_P11, "closure outside the library's memory"); break; }
      if (c->prot & PROT_WRITE) continue;                                   /* the plain read-write-execute case, judged above */
      if (c->file && F[c->file].kind == FK_EXEC && c->shared)
        {
          if (!(d->prot & PROT_WRITE) || (d->prot & PROT_EXEC) || d->file != c->file || !d->shared || d->off != c->off) violate (V_P15, "closure %d: writable and executable views are not two views of the same place of one file", i);
          if (F[c->file].cand != fu) violate (V_P15, "the backing file comes from place %d, the first usable one is %d", F[c->file].cand, fu);
        }
      else if (c->file && F[c->file].kind == FK_EXEC)
        { if (fu >= 0 && fu < F[c->file].cand) violate (V_P15, "the trampoline file comes from place %d, an earlier usable one is %d", F[c->file].cand, fu); if (!c_usable (F[c->file].cand)) violate (V_P15, "unusable file"); }
    }
  for (int i = 0; i < norder && !vio; i++)
    { int c = order_seen[i]; if (c >= K_MTAB && (E.cand[c] == C_READONLY || E.cand[c] == C_NOEXECOPT || E.cand[c] == C_NOACCESS)) violate (V_P15, "opens a file on mount %d, which is read-only, no-exec or not writable", c); }
  if (!vio) GUARD (free_all (1));
  if (!vio) once_check (V_P15);
}
static void config_emit (void)
{
  u64 my = idx++; if (stop_flag || my % W != (u64)w) return;
  strcpy (sh->cur, "config "); env_text (sh->cur + 7); alarm (30); AS_USER (config_run ()); alarm (0); report (); __atomic_fetch_add (n_trans, 1, __ATOMIC_RELAXED);
  u64 h = 9; for (unsigned i = 0; i < sizeof E; i++) h = hmix (h, ((u8*)&E)[i]); visit (h);
}
static void explore_p15 (void)
{
  static const u8 dir_states[] = { C_OK, C_ABSENT, C_NOEXEC, C_NOSPACE, C_MKSTEMP, C_MKSTEMP_NOEXEC, C_SHORT, C_NOACCESS };
  static const u8 mnt_states[] = { C_OK, C_NOEXEC, C_READONLY, C_NOEXECOPT, C_NOACCESS, C_NOSPACE };
  struct { u8 selinux, pax, rwx; } pol[] = { { 0,0,0 }, { 1,0,0 }, { 2,0,0 }, { 3,0,0 }, { 0,1,0 }, { 0,2,0 }, { 0,3,0 }, { 0,4,0 }, { 0,0,EPERM }, { 0,0,EACCES }, { 1,2,EACCES }, { 0,2,EPERM }, { 2,1,0 }, { 1,4,0 } };
  calibrate ();
  for (int m = 0; m < MAPS_NSTATE; m++) for (unsigned p = 0; p < sizeof pol / sizeof *pol; p++) for (int pl = 0; pl < 4; pl++)
    {
      struct env b; memset (&b, 0, sizeof b); b.maps = m; b.selinux = pol[p].selinux; b.pax = pol[p].pax; b.rwx = pol[p].rwx; b.place = pl;
      if (m == MAPS_OK && pl > 1) continue;
      /* up to 2 (thorough 3) places differ from "all fine" / from "all missing" */
      for (int base = 0; base < 2; base++)
        {
          struct env c = b; if (base) for (int i = 0; i < NCAND; i++) c.cand[i] = i >= K_MTAB ? C_NOEXECOPT : C_ABSENT;
          E = c; config_emit ();
          if (m == MAPS_OK && !thorough) continue;
          if (pl > 1 && !thorough) continue;
          for (int i = 0; i < NCAND; i++) for (int s = 0; s < (i >= K_MTAB ? 6 : 8); s++)
            {
              E = c; E.cand[i] = i >= K_MTAB ? mnt_states[s] : dir_states[s]; config_emit (); struct env c1 = E;
              for (int j = 0; j < i; j++) for (int t = 0; t < (j >= K_MTAB ? 6 : 8); t++)
                {
                  E = c1; E.cand[j] = j >= K_MTAB ? mnt_states[t] : dir_states[t]; if (pl == 0 || m == 1) config_emit (); struct env c2 = E;
                  if (thorough && pl == 0 && (m == 1 || m == 5)) for (int k = 0; k < j; k++) for (int u = 0; u < (k >= K_MTAB ? 6 : 8); u++) { E = c2; E.cand[k] = k >= K_MTAB ? mnt_states[u] : dir_states[u]; config_emit (); }
                }
            }
        }
      /* prefixes of unusable places, then usable ones, each way of being unusable */
      for (int first = 0; first <= NCAND; first++) for (int s = 1; s < 8; s++)
        { E = b; for (int i = 0; i < first; i++) E.cand[i] = i >= K_MTAB ? mnt_states[1 + (s - 1) % 5] : dir_states[s]; config_emit (); if (first >= K_MTAB) { E.cand[K_MTAB] = C_ABSENT; config_emit (); E.cand[K_PM] = C_ABSENT; config_emit (); } }
    }
}

/* ---- replay and main ---- */
static int parse_ints (const char *p, int *v, int max) { int n = 0, k, c; while (n < max && sscanf (p, " %d%n", &k, &c) == 1) { v[n++] = k; p += c; } return n; }
static void parse_env (const char *b) { int v[6 + NCAND]; const char *p = strstr (b, "env "); int n = parse_ints (p + 4, v, 6 + NCAND); if (n != 6 + NCAND) { fprintf (stderr, "bad case"); exit (3); } E.maps = v[0]; E.selinux = v[1]; E.pax = v[2]; E.rwx = v[3]; E.place = v[4]; E.ntramp = v[5]; for (int i = 0; i < NCAND; i++) E.cand[i] = v[6 + i]; }
static void replay_case (const char *b)
{
  int v[64]; u8 ops[64]; struct env e;
  calibrate (); parse_env (b); e = E;
  if (!strncmp (b, "fault ", 6))
    { int n = parse_ints (strstr (b, " dev") + 4, v, 64); ndev = n / 2; for (int i = 0; i < ndev; i++) { ndev_at[i] = v[2*i]; dev_alt[i] = v[2*i+1]; } fault_run (atoi (b + 6), 0); for (int i = 0; i < ndev; i++) printf ("refused: call %d %s\n", v[2*i], callname[v[2*i]] ? callname[v[2*i]] : "?"); return; }
  if (!strncmp (b, "config", 6)) { config_run (); return; }
  int n = parse_ints (strstr (b, " ops") + 4, v, 64); want_pages = strncmp (b, "bfs", 3) ? NPAGE_MAX : 768; for (int i = 0; i < n; i++) { ops[i] = v[i]; if (v[i] == 3 || v[i] == 4) want_pages = NPAGE_MAX; }
  if (!strncmp (b, "long", 4)) { want_pages = 768; closed_long (ops, n, b[4] - '0'); return; }
  if (!strncmp (b, "closed", 6)) closed_run (ops, n, b[6] - '0'); else { reset (); run_ops (ops, n, 0); }
}
int main (int argc, char **argv)
{
  static char altstack[65536]; stack_t ss = { altstack, 0, sizeof altstack }; sigaltstack (&ss, 0);
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGALRM };
  for (int i = 0; i < 7; i++) sigaction (sg[i], &sa, 0);
  if (argc < 3) return 3;
  if (ffi_prep_cif (&CIF, FFI_DEFAULT_ABI, 1, &ffi_type_sint, AT)) return 3;
  os_init (); { size_t a_, b_; E.ntramp = 0; if (ffi_tramp_arch) mc_tramp_arch (&a_, &b_); }
  if (!strcmp (argv[1], "replay"))
    { sh = calloc (1, sizeof *sh); visited = mmap (0, HB, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); alarm (40); AS_USER (replay_case (argv[2])); if (vio) printf ("mask %d %s\n", vio, vmsg); else puts ("quiet"); if (argc > 3) return vio & atoi (argv[3]) ? 10 : 0; return vio ? 10 : 0; }
  const char *mode = argv[1]; thorough = !strcmp (argv[2], "thorough"); W = argc > 4 ? atoi (argv[4]) : 8;
  want = !strcmp (mode, "P11") ? V_P11 : !strcmp (mode, "P14") ? V_P14 : !strcmp (mode, "P15") ? V_P15 : V_P21;
  shards = mmap (NULL, sizeof (struct shard) * 64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  visited = mmap (NULL, HB, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  u64 *ctr = mmap (NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); n_states = ctr; n_trans = ctr + 8; n_bad = ctr + 40; lvl_n[0] = ctr + 16; lvl_n[1] = ctr + 24;
  for (int i = 0; i < 2; i++) lvl[i] = mmap (NULL, lvl_cap * sizeof (struct node), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  int bad = 0; char died[800] = ""; int dsig = 0;
  if (want == V_P11) explore_p11 ();
  else
    {
      pid_t pid[64]; fflush (0);
      for (w = 0; w < W; w++) if (!(pid[w] = fork ())) { sh = &shards[w]; sh->started = 1; if (want == V_P14) explore_p14 (); else if (want == V_P15) explore_p15 (); else explore_p21 (); sh->extra = idx; sh->done = 1; _exit (0); }
      for (int i = 0; i < W; i++) { int st; waitpid (pid[i], &st, 0); if (!shards[i].done) { fprintf (stderr, "worker died: %x (%s)\n", st, shards[i].cur); return 3; } }
    }
  FILE *o = fopen (argv[3], "w"); char *sep = ""; u64 runs = 0, ops = 0, fails = 0;
  fprintf (o, "{\"failures\":[");
  for (int i = 0; i < W; i++)
    {
      runs += shards[i].runs; ops += shards[i].ops; fails += shards[i].fails;
      for (int k = 0; k < shards[i].nfail; k++) { char *nl_ = strchr (shards[i].fail[k], '\n'); *nl_ = 0; fprintf (o, "%s{\"case\":\"%s\",\"msg\":\"%s\"}", sep, shards[i].fail[k], nl_ + 1); sep = ",\n"; }
    }
  fprintf (o, "],\n\"samples\":["); sep = ""; for (int i = 0; i < W && i < 4; i++) for (int k = 0; k < shards[i].nsample; k++) { fprintf (o, "%s\"%s\"", sep, shards[i].sample[k]); sep = ",\n"; }
  fprintf (o, "],\n\"runs\":%lu,\"ops\":%lu,\"states\":%lu,\"transitions\":%lu,\"enumerated\":%lu,\"fails\":%lu,\"mask\":%d}\n", runs, ops, *n_states, *n_trans, shards[0].extra, fails, want);
  fclose (o); (void) bad; (void) died; (void) dsig;
  return fails ? 10 : 0;
}
