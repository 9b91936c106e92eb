/* ---- the explorer ---- */
extern char __start_hartext[], __stop_hartext[];
/* The instructions of an operation are recorded once by single-stepping it alone; a run that is interrupted at the
   k-th of them has a breakpoint put there, which counts how often it is passed.  One breakpoint is in place at a time.  */
#define MAXT 20000
struct trace { int n; uint64_t rip[MAXT]; unsigned short occ[MAXT]; };
static struct trace *rec; static volatile int phase, inner_op, inner_path, inner_ok, stepping;
static uint8_t *bp; static uint8_t bp_byte; static int bp_left; static uint64_t bp2; static int bp2_occ;
static volatile int nested_bad; static sigjmp_buf crash_env; static volatile int armed;
static inline __attribute__((always_inline)) void tf_on (void) { __asm__ volatile ("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static inline __attribute__((always_inline)) void tf_off (void) { __asm__ volatile ("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }
static void plant (uint64_t at, int occ) { bp = (uint8_t*) at; bp_left = occ; bp_byte = *(volatile uint8_t*) bp; *(volatile uint8_t*) bp = 0xCC; }
static void lift (void) { if (bp) *(volatile uint8_t*) bp = bp_byte; bp = 0; }
static void on_trap (int sig, siginfo_t *si, void *uc_)
{
  ucontext_t *uc = uc_; greg_t *g = uc->uc_mcontext.gregs; uint64_t rip = g[REG_RIP];
  if (rec)
    {
      if (rip >= (uint64_t) __start_hartext && rip < (uint64_t) __stop_hartext) return;
      if (rec->n && rec->rip[rec->n - 1] == rip) return;               /* a repeated string instruction */
      if (rec->n < MAXT) rec->rip[rec->n++] = rip;
      return;
    }
  if (stepping) { stepping = 0; g[REG_EFL] &= ~0x100l; if (bp) *(volatile uint8_t*) bp = 0xCC; return; }
  if (!bp || rip != (uint64_t) bp + 1) { g[REG_EFL] &= ~0x100l; return; }
  g[REG_RIP]--; *(volatile uint8_t*) bp = bp_byte;
  if (bp_left--) { stepping = 1; g[REG_EFL] |= 0x100l; return; }
  bp = 0;
  if (phase == 0)
    {
      phase = 1;
      if (bp2) plant (bp2, bp2_occ);
      inner_ok = run_op (inner_op, inner_path, 1); lift ();
      phase = 3;
    }
  else if (phase == 1) { phase = 2; nested_bad = !run_op (inner_op, inner_path, 2); }
}
static sigjmp_buf alone_env; static int alone_on;
static void on_crash (int sig) { if (armed) siglongjmp (crash_env, sig); if (alone_on) siglongjmp (alone_env, sig); _exit (3); }
/* the operation, with nothing interrupting it */
static int alone (int op, int path) { int r; alone_on = 1; r = sigsetjmp (alone_env, 1) ? 0 : run_op (op, path, 0); alone_on = 0; return r; }
static void record (struct trace *t, int op, int path)
{
  t->n = 0; rec = t; tf_on (); volatile int ok = run_op (op, path, 0); tf_off (); rec = 0;
  if (!ok || t->n >= MAXT) { fprintf (stderr, "%s path %d alone\n", op_name[op], path); _exit (3); }
  uint64_t page = 0;
  for (int i = 0; i < t->n; i++)
    {
      int c = 0; for (int j = 0; j < i; j++) c += t->rip[j] == t->rip[i];
      t->occ[i] = c;
      for (int e = 0; e < 2; e++) if (((t->rip[i] + e) & ~4095ul) != page) { page = (t->rip[i] + e) & ~4095ul; mprotect ((void*) page, 4096, PROT_READ|PROT_WRITE|PROT_EXEC); }
    }
}
/* 0 fine, else what went wrong; k, k2 are 1-based, 0: no interruption */
static const char *one (struct trace *t, struct trace *t2, int op, int path, long k, int iop, int ipath, long k2)
{
  int sg, ok; inner_op = iop; inner_path = ipath; inner_ok = 0; phase = 0; stepping = 0; bp2 = 0; nested_bad = 0;
  if (k > t->n || (k2 && k2 > t2->n)) return NULL;
  if (k2) { bp2 = t2->rip[k2 - 1]; bp2_occ = t2->occ[k2 - 1]; }
  if ((sg = sigsetjmp (crash_env, 1))) { armed = 0; tf_off (); lift (); static char m[60]; snprintf (m, 60, sg == SIGALRM ? "does not return" : "crash, signal %d", sg); return m; }
  armed = 1; plant (t->rip[k - 1], t->occ[k - 1]); ok = run_op (op, path, 0); lift (); armed = 0;
  if (phase == 0) return NULL;
  if (nested_bad) return "the operation that interrupts the interrupting one gives another result than alone";
  if (inner_ok != 1) return "the interrupting operation gives another result than alone";
  if (!ok) return "the interrupted operation gives another result than alone";
  return NULL;
}
struct shard { uint64_t runs, pts; int nfail; char fail[3][300]; uint64_t hit; char sample[100]; volatile int done; } *sh;
int main (int argc, char **argv)
{
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction (SIGTRAP, &sa, 0);
  static char alt[65536]; stack_t ss = { alt, 0, sizeof alt }; sigaltstack (&ss, 0);
  memset (&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM }; for (int i = 0; i < 6; i++) sigaction (sg[i], &sa, 0);
  for (int i = 0; i < 37; i++) E_S37[i] = &ffi_type_schar;
  setup ();
  if (argc > 2 && !strcmp (argv[1], "replay"))
    {
      int a, b, c, d; long k, k2; sscanf (argv[2], "intr %d %d at %ld by %d %d at %ld", &a, &b, &k, &c, &d, &k2); alarm (20);
      for (int op = 0; op < NOPS; op++) for (int p = 0; p < NPATH; p++) if (has_path (op, p) && !alone (op, p) && op == a && p == b) { printf ("%s path %d gives a wrong result alone\n", op_name[op], p); return 10; }
      static struct trace t, t2; record (&t, a, b); record (&t2, c, d);
      const char *m = one (&t, &t2, a, b, k, c, d, k2); printf ("%s: %s\n", op_name[a], m ? m : "quiet"); return m ? 10 : 0;
    }
  int thorough = !strcmp (argv[1], "thorough"), W = argc > 3 ? atoi (argv[3]) : 8; struct shard *shs = mmap (0, sizeof *shs * 64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); pid_t pid[64];
  for (int op = 0; op < NOPS; op++) for (int p = 0; p < NPATH; p++) if (has_path (op, p) && !alone (op, p)) 
    {
      FILE *o = fopen (argv[2], "w"); fprintf (o, "{\"failures\":[{\"case\":\"intr %d %d at 0 by %d %d at 0\",\"msg\":\"%s path %d gives a wrong result although nothing interrupts it\"}],\"samples\":[],\"runs\":1,\"points\":0,\"interrupted\":0,\"fails\":1}\n", op, p, op, p, op_name[op], p); fclose (o);
      return 10;
    }
  fflush (0);
  for (int w = 0; w < W; w++) if (!(pid[w] = fork ()))
    {
      sh = &shs[w]; uint64_t idx = 0;
      for (int op = 0; op < NOPS; op++) for (int p = 0; p < NPATH; p++) if (has_path (op, p))
        {
          if (idx++ % W != (uint64_t) w) continue;
          static struct trace t, t2; const char *m; alarm (60); record (&t, op, p); sh->pts += t.n;
          for (int q = -1; q < NINNER && sh->nfail < 3; q++)
            {
              int io = q < 0 ? op : INNER[q][0], ip = q < 0 ? p : INNER[q][1];
              for (long k = 1; k <= t.n && sh->nfail < 3; k++)
                {
                  alarm (20); m = one (&t, 0, op, p, k, io, ip, 0); sh->runs++; sh->hit += phase != 0;
                  if (m) snprintf (sh->fail[sh->nfail++], 300, "intr %d %d at %ld by %d %d at 0\n%s path %d interrupted after %ld instructions by %s path %d: %s", op, p, k, io, ip, op_name[op], p, k, op_name[io], ip, m);
                  else if (sh->runs == 1000) snprintf (sh->sample, 100, "intr %d %d at %ld by %d %d at 0", op, p, k, io, ip);
                }
            }
          /* an interruption of the interruption: every pair of points, for operations of moderate length */
          record (&t2, op, p);
          int s1 = thorough ? 1 + t.n / 600 : 5 + t.n / 60, s2 = thorough ? 1 + t.n / 400 : 7 + t.n / 40;
          for (long k = 1; k <= t.n && sh->nfail < 3; k += s1) for (long k2 = 1 + k % s2; k2 <= t2.n && sh->nfail < 3; k2 += s2)
            { alarm (20); m = one (&t, &t2, op, p, k, op, p, k2); sh->runs++; sh->hit += phase != 0; if (m) snprintf (sh->fail[sh->nfail++], 300, "intr %d %d at %ld by %d %d at %ld\n%s path %d interrupted twice: %s", op, p, k, op, p, k2, op_name[op], p, m); }
        }
      sh->done = 1; _exit (0);
    }
  for (int w = 0; w < W; w++) { int st; waitpid (pid[w], &st, 0); if (!shs[w].done) { fprintf (stderr, "worker died %x\n", st); return 3; } }
  FILE *o = fopen (argv[2], "w"); uint64_t runs = 0, pts = 0, hit = 0, fails = 0; char *sep = ""; fprintf (o, "{\"failures\":[");
  for (int w = 0; w < W; w++) { runs += shs[w].runs; pts += shs[w].pts; hit += shs[w].hit; for (int i = 0; i < shs[w].nfail; i++) { fails++; char *n = strchr (shs[w].fail[i], '\n'); *n = 0; fprintf (o, "%s{\"case\":\"%s\",\"msg\":\"%s\"}", sep, shs[w].fail[i], n + 1); sep = ",\n"; } }
  fprintf (o, "],\"samples\":[\"%s\",\"%s\"],\"runs\":%lu,\"points\":%lu,\"interrupted\":%lu,\"fails\":%lu}\n", shs[0].sample, shs[1].sample, runs, pts, hit, fails); fclose (o);
  return fails ? 10 : 0;
}
