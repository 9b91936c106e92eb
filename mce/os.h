/* A small simulated operating system.  The library's calls to libc are
   redirected here (objcopy --redefine-sym), so that every answer the system
   gives, every placement of a mapping and every failure is chosen by the
   explorer, and every resource the library holds is in a ledger.  */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <mntent.h>
#include <setjmp.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/statfs.h>
#include <sys/stat.h>
#include <ffi.h>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

/* ---- environment ---- */
enum { C_OK, C_ABSENT, C_NOEXEC, C_NOSPACE, C_MKSTEMP, C_MKSTEMP_NOEXEC, C_SHORT, C_READONLY, C_NOEXECOPT, C_NOACCESS, C_NSTATE };
enum { K_MEMFD, K_LIBFFI, K_TMPDIR, K_TMP, K_VARTMP, K_SHM, K_HOME, K_MTAB, K_MTAB2, K_MTAB3, K_PM, K_PM2, K_PM3, NCAND };
enum { MAPS_OK, MAPS_NOFILE, MAPS_NOENTRY, MAPS_OTHER, MAPS_NOOPEN, MAPS_DENIED, MAPS_NSTATE };
struct env { u8 maps, selinux, pax, rwx, place, ntramp, cand[NCAND]; };
static struct env E;
#define PG 4096ul
#define NPAGE_MAX 8192
static size_t NPAGE = NPAGE_MAX;      /* how much of the arena is used */
#define ABASE 0x300000000000ul
#define BBASE 0x310000000000ul      /* blocks */
#define NSLOTS 256
#define SLOT 16384

/* ---- violations ---- */
enum { V_P11 = 1, V_P14 = 2, V_P15 = 4, V_P21 = 8, V_ALL = 15, V_MACH = 256 };
static int vio; static char vmsg[600];
static void violate (int mask, const char *fmt, ...)
{ if (!vio) { va_list ap; va_start (ap, fmt); vsnprintf (vmsg, sizeof vmsg, fmt, ap); va_end (ap); } vio |= mask; }

/* ---- choices: deviations from the healthy answer ---- */
#define MAXCH 4000
static u8 dev_kind[MAXCH]; static int ndev_at[8], ndev, dev_alt[8];        /* planned deviations: call number, alternative */
static int ncall; static u8 nalt[MAXCH]; static const char *callname[MAXCH];
static int munmap_refused, faults_on, faulted, persist_from = -1;
#ifndef MC_THREADS
static sigjmp_buf crash_env; static volatile int crash_armed;
#endif
/* returns 0 healthy or the number of the alternative */
static int choose (const char *who, int alts)
{
#ifdef MC_THREADS
  sched_point (who);
#endif
  int me = ncall++;
#ifndef MC_THREADS
  if (me > 2000000 && crash_armed) { violate (V_ALL, "the library does not return: 2000000 system calls"); ncall = 0; siglongjmp (crash_env, 1000); }
#endif
  if (!faults_on) return 0;
  if (me < MAXCH) { nalt[me] = alts; callname[me] = who; }
  for (int i = 0; i < ndev; i++) if (ndev_at[i] == me && dev_alt[i] <= alts) { faulted++; return dev_alt[i]; }
  return 0;
}

/* ---- ledger ---- */
struct file { int mapped, wrote, rfd, used, kind, fd, cand; long len, pos; long alloc_to; char name[64]; int named; FILE *fp; int hole_lo, hole_hi; };
#define NFILE 64
static struct file F[NFILE];
enum { FK_EXEC = 1, FK_BIN, FK_STREAM, FK_OTHER };
struct page { u8 live, prot, shared; short file; long off; };
static struct page PGS[NPAGE_MAX];
static int npages_live, nfd_live, nblk_live, nname_live; static long blk_bytes;
struct block { size_t size; int live; };
static struct block BL[NSLOTS]; static u8 slot_dirty[NSLOTS]; static int blk_next, blk_reuse = 1;
static pthread_mutex_t *held[16]; static int nheld;
static int rwx_seen, rwx_policy_ok; static int order_seen[32], norder;
static int os_fast;             /* the arena is mapped once, readable, writable and executable; only for systems without shared mappings */
static int real_mapped;

static int file_new (void) { for (int i = 1; i < NFILE; i++) if (!F[i].used) { memset (&F[i], 0, sizeof F[i]); F[i].used = 1; return i; } violate (V_ALL, "%d descriptors and streams are open at once", NFILE - 1); return 1; }
static int file_by_fd (int fd) { for (int i = 1; i < NFILE; i++) if (F[i].used && F[i].kind != FK_STREAM && F[i].fd == fd) return i; return 0; }
static int file_by_fp (FILE *fp) { for (int i = 1; i < NFILE; i++) if (F[i].used && F[i].kind == FK_STREAM && F[i].fp == fp) return i; return 0; }

/* ---- memory mappings ---- */
static size_t npg (size_t n) { return (n + PG - 1) / PG; }
static int run_free (size_t p, size_t n) { if (p + n > NPAGE) return 0; for (size_t i = 0; i < n; i++) if (PGS[p + i].live) return 0; return 1; }
static long place_ (size_t n)
{
  long best = -1;
  switch (E.place & 3)
    {
    case 0: /* directly above the highest live mapping */
      { size_t hi = 16; for (size_t i = 0; i < NPAGE; i++) if (PGS[i].live) hi = i + 1; if (run_free (hi, n)) best = hi; } break;
    case 1: /* directly below the lowest live mapping, like Linux */
      { size_t lo = NPAGE - 16; for (size_t i = NPAGE; i-- > 0; ) if (PGS[i].live) lo = i; if (lo > n && run_free (lo - n, n)) best = lo - n; } break;
    case 2: /* never adjacent to another mapping */
      { for (size_t p = 1; p + n < NPAGE; p++) if (run_free (p - 1, n + 2)) { best = p; break; } } break;
    case 3: /* highest hole that fits, which is what Linux does with holes */
      { for (size_t p = NPAGE - 16 - n; p > 0; p--) if (run_free (p, n)) { best = p; break; } } break;
    }
  if (best < 0) for (size_t p = 1; p + n < NPAGE; p++) if (run_free (p, n)) return p;
  return best;
}
static int mapping_file_ok (int f, int prot, int *err)
{
  if (!(prot & PROT_EXEC)) return 1;
  if (F[f].kind == FK_BIN) { if (E.maps == MAPS_DENIED) { *err = EACCES; return 0; } return 1; }
  if (F[f].kind == FK_EXEC) { int c = E.cand[F[f].cand]; if (c == C_NOEXEC || c == C_MKSTEMP_NOEXEC) { *err = EPERM; return 0; } }
  return 1;
}
static int tramps_in_use (void);
void *mc_mmap (void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
  size_t n = npg (len); int f = 0, err = 0; long p;
  int a = choose ((flags & MAP_ANONYMOUS) ? prot & PROT_EXEC ? "mmap(anon,rwx)" : "mmap(anon)" : prot & PROT_EXEC ? "mmap(file,exec)" : "mmap(file)", prot & PROT_EXEC ? 3 : 1);
  if (len == 0 || (off & (PG - 1)) || (flags & (MAP_SHARED | MAP_PRIVATE)) == 0) { errno = EINVAL; return MAP_FAILED; }
  if ((prot & PROT_WRITE) && (prot & PROT_EXEC))
    {
      rwx_seen++;
      if (faulted && (E.selinux == 1 || E.selinux == 2 || E.pax == 2 || E.pax == 3)) { errno = EACCES; return MAP_FAILED; }      /* it could not find out about the policy */
      if (E.selinux == 1 || E.selinux == 2 || E.pax == 2 || E.pax == 3) violate (V_P15, "maps writable and executable memory although the system's policy forbids it");
      if (E.rwx) { errno = E.rwx; return MAP_FAILED; }
    }
  if (a) { errno = a == 1 ? ENOMEM : a == 2 ? EPERM : EACCES; return MAP_FAILED; }
  if (!(flags & MAP_ANONYMOUS))
    {
      f = file_by_fd (fd);
      if (!f) { errno = EBADF; return MAP_FAILED; }
      if (!mapping_file_ok (f, prot, &err)) { errno = err; return MAP_FAILED; }
      if (F[f].kind == FK_EXEC && (flags & MAP_SHARED) && (off < 0 || off + (long)len > F[f].len || (F[f].hole_hi > F[f].hole_lo && off < F[f].hole_hi && off + (long)len > F[f].hole_lo)))
        violate (V_P14, "maps bytes %ld..%ld of the backing file, for which no space is allocated (length %ld)", (long)off, (long)off + (long)len, F[f].len);
    }
  if (f) F[f].wrote = 0, F[f].mapped = 1;
  if (f && F[f].kind == FK_EXEC && !os_fast) { if (ftruncate (F[f].rfd, F[f].len)) violate (V_MACH, "ftruncate"); }
  if (flags & MAP_FIXED)
    {
      p = ((u64)addr - ABASE) / PG;
      if ((u64)addr < ABASE || p + n > NPAGE || ((u64)addr & (PG-1))) { violate (V_ALL, "fixed mapping outside the library's own memory (%p)", addr); errno = EINVAL; return MAP_FAILED; }
      for (size_t i = 0; i < n; i++) if (!PGS[p + i].live) { violate (V_ALL, "fixed mapping over memory the library does not own (%p)", addr); break; }
    }
  else { p = place_ (n); if (p < 0) { errno = ENOMEM; return MAP_FAILED; } }
  void *want = (void*)(ABASE + p * PG);
  if (os_fast)
    {
      if (!f) memset (want, 0, n * PG);
      else if (flags & MAP_SHARED) { violate (V_MACH, "shared mapping in fast mode"); return MAP_FAILED; }
      else
        { /* private mapping of a file: a copy of its contents, read once */
          static u8 cache[4][PG]; static struct { long off, len; int kind; } ck[4]; static int nck; int c;
          if (F[f].kind == FK_BIN && n == 1) { for (c = 0; c < nck; c++) if (ck[c].off == off && ck[c].len == F[f].len) break; if (c == nck && nck < 4) { memset (cache[c], 0, PG); if (pread (F[f].rfd, cache[c], PG, off) < 0) violate (V_MACH, "pread"); ck[c].off = off; ck[c].len = F[f].len; nck++; } if (c < 4) { memcpy (want, cache[c], PG); goto placed; } }
          memset (want, 0, n * PG); if (pread (F[f].rfd, want, n * PG, off) < 0) violate (V_MACH, "pread");
        placed:;
        }
      goto done;
    }
  void *r = mmap (want, n * PG, prot, (flags & ~MAP_FIXED_NOREPLACE) | MAP_FIXED | MAP_NORESERVE, f ? F[f].rfd : -1, off); real_mapped = 1;
  if (r != want) { violate (V_MACH, "real mmap failed: %s", strerror (errno)); return MAP_FAILED; }
done:
  for (size_t i = 0; i < n; i++)
    { if (!PGS[p + i].live) npages_live++; PGS[p + i] = (struct page){ 1, prot, !!(flags & MAP_SHARED), f, off + i * PG }; }
  return want;
}
int mc_munmap (void *addr, size_t len)
{
  size_t n = npg (len); long p = ((u64)addr - ABASE) / PG;
  if ((u64)addr < ABASE || p + n > NPAGE || ((u64)addr & (PG-1)) || !len) { violate (V_ALL, "munmap (%p, %zu) of memory the library does not own", addr, len); errno = EINVAL; return -1; }
  for (size_t i = 0; i < n; i++) if (!PGS[p + i].live) { violate (V_ALL, "munmap (%p, %zu) releases memory that is not mapped", addr, len); return 0; }
  if (choose ("munmap", 1)) { munmap_refused++; errno = ENOMEM; return -1; }
  for (size_t i = 0; i < n; i++) { PGS[p + i].live = 0; npages_live--; }
  if (os_fast) { memset (addr, 0xDB, n * PG); return 0; }
  mmap (addr, n * PG, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
  return 0;
}
int mc_mprotect (void *addr, size_t len, int prot)
{
  long p = ((u64)addr - ABASE) / PG; size_t n = npg (len);
  if ((u64)addr < ABASE || p + n > NPAGE) { violate (V_ALL, "mprotect outside the library's memory"); errno = EINVAL; return -1; }
  if (choose ("mprotect", 1)) { errno = EACCES; return -1; }
  if ((prot & PROT_WRITE) && (prot & PROT_EXEC)) { rwx_seen++; if (E.selinux == 1 || E.selinux == 2 || E.pax == 2 || E.pax == 3) violate (V_P15, "makes memory writable and executable although the system's policy forbids it"); if (E.rwx) { errno = E.rwx; return -1; } }
  for (size_t i = 0; i < n; i++) PGS[p + i].prot = prot;
  if (os_fast) return 0;
  return mprotect (addr, len, prot);
}

/* ---- blocks ---- */
static void *blk_get (size_t n)
{
  if (n > SLOT - 64) { violate (V_MACH, "block of %zu bytes", n); return NULL; }
  int s = -1;
  if (blk_reuse) { for (int i = 0; i < NSLOTS; i++) if (!BL[i].live) { s = i; break; } } else if (blk_next < NSLOTS) s = blk_next++;
  if (s < 0) { violate (V_ALL, "%d blocks are allocated at once", NSLOTS); return NULL; }
  BL[s] = (struct block){ n, 1 }; slot_dirty[s] = 1; nblk_live++; blk_bytes += n;
  u8 *b = (u8*)BBASE + (size_t)s * SLOT; memset (b, 0xE7, n + 64); return b;
}
static int blk_index (void *p) { u64 a = (u64)p; if (a < BBASE || a >= BBASE + (u64)NSLOTS * SLOT || (a - BBASE) % SLOT) return -1; return (a - BBASE) / SLOT; }
static void blk_check (int s) { u8 *b = (u8*)BBASE + (size_t)s * SLOT; for (int i = 0; i < 64; i++) if (b[BL[s].size + i] != 0xE7) { violate (V_ALL, "write past the end of a %zu-byte block", BL[s].size); return; } }
/* memory given back must not be written to any more */
static void dead_check (void)
{
  for (int s = 0; s < NSLOTS; s++) if (slot_dirty[s] && !BL[s].live && BL[s].size)
    {
      u64 *b = (u64*)(BBASE + (size_t)s * SLOT); size_t n = BL[s].size / 8;
      for (size_t i = 0; i < n; i++) if (b[i] != 0xDBDBDBDBDBDBDBDBull) { violate (V_ALL, "a block of %zu bytes that had been freed was written to, at offset %zu", BL[s].size, i * 8); return; }
    }
}
void *mc_malloc (size_t n) { if (choose ("malloc", 1)) { errno = ENOMEM; return NULL; } return blk_get (n); }
void *mc_calloc (size_t n, size_t m) { if (choose ("calloc", 1)) { errno = ENOMEM; return NULL; } void *p = blk_get (n * m); if (p) memset (p, 0, n * m); return p; }
void mc_free (void *p)
{
  if (!p) return;
  int s = blk_index (p);
  if (s < 0 || !BL[s].live) { violate (V_ALL, "free (%p) of something that is not an allocated block", p); return; }
  blk_check (s); BL[s].live = 0; nblk_live--; blk_bytes -= BL[s].size; memset (p, 0xDB, BL[s].size);
}
void *mc_realloc (void *p, size_t n)
{
  if (choose ("realloc", 1)) { errno = ENOMEM; return NULL; }
  void *q = blk_get (n); if (p && q) { int s = blk_index (p); if (s < 0 || !BL[s].live) { violate (V_ALL, "realloc of something that is not a block"); return q; } memcpy (q, p, BL[s].size < n ? BL[s].size : n); mc_free (p); }
  return q;
}

char *mc_strndup (const char *t, size_t n) { n = strnlen (t, n); if (choose ("strdup", 1)) { errno = ENOMEM; return NULL; } char *p = blk_get (n + 1); if (p) { memcpy (p, t, n); p[n] = 0; } return p; }
char *mc_strdup (const char *t) { return mc_strndup (t, strlen (t)); }
int mc_posix_memalign (void **p, size_t al, size_t n) { void *q = mc_malloc (n); if (!q) return ENOMEM; *p = q; return 0; }
void *mc_aligned_alloc (size_t al, size_t n) { return mc_malloc (n); }

/* ---- files ----  the library sees numbers of our own; the real files behind them are kept for the next run */
static struct { int fd, used; } pool[400]; static int npool;
static void rfd_drop (int f) { (void) f; /* still mapped, perhaps: reused only after the run */ }
static void rfd_close (int rfd) { for (int i = 0; i < npool; i++) if (pool[i].fd == rfd) { pool[i].used = 0; return; } }
static int new_exec_file (int cand, const char *name, int named)
{
  int fd = -1; for (int i = 0; i < npool && fd < 0; i++) if (!pool[i].used) { fd = pool[i].fd; pool[i].used = 1; }
  if (fd < 0 && npool == 400) { violate (V_ALL, "temporary files are created again and again, 400 in this history"); errno = EMFILE; return -1; }
  if (fd < 0) { fd = memfd_create ("mc", MFD_CLOEXEC); if (fd >= 0) { pool[npool].fd = fd; pool[npool++].used = 1; } } else if (ftruncate (fd, 0)) violate (V_MACH, "ftruncate");
  if (fd < 0) { violate (V_MACH, "memfd: %s", strerror (errno)); errno = EMFILE; return -1; }
  int f = file_new (); F[f].kind = FK_EXEC; F[f].rfd = fd; F[f].fd = 9000 + f; F[f].cand = cand; F[f].named = named; if (named) nname_live++;
  snprintf (F[f].name, sizeof F[f].name, "%s", name); nfd_live++;
  if (norder < 32) order_seen[norder++] = cand;
  return F[f].fd;
}
static const char *cand_dir[NCAND] = { "(memfd)", "/mc/libffi", "/mc/tmpdir", "/tmp", "/var/tmp", "/dev/shm", "/mc/home", "/mc/mt1", "/mc/mt2", "/mc/mt3", "/mc/pm1", "/mc/pm2", "/mc/pm3" };
static int cand_of_dir (const char *d, size_t n) { for (int i = 1; i < NCAND; i++) if (strlen (cand_dir[i]) == n && !strncmp (cand_dir[i], d, n)) return i; return -1; }
int mc_memfd_create (const char *name, unsigned fl)
{
  int a = choose ("memfd_create", 1);
  if (E.cand[K_MEMFD] == C_ABSENT || E.cand[K_MEMFD] == C_NOACCESS || E.cand[K_MEMFD] == C_READONLY || E.cand[K_MEMFD] == C_MKSTEMP || E.cand[K_MEMFD] == C_MKSTEMP_NOEXEC) { errno = ENOSYS; return -1; }
  if (a) { errno = EMFILE; return -1; }
  return new_exec_file (K_MEMFD, "memfd", 0);
}
static int bin_open (const char *path)
{
  static int self = -1; static struct stat st;
  if (self < 0) { self = open (path, O_RDONLY | O_CLOEXEC); if (self < 0) { violate (V_MACH, "open %s", path); return -1; } fstat (self, &st); }
  int f = file_new (); F[f].kind = FK_BIN; F[f].rfd = self; F[f].fd = 9000 + f; F[f].len = st.st_size; nfd_live++; strcpy (F[f].name, "binary"); return F[f].fd;
}
static char self_path[512];
int mc_open (const char *path, int flags, ...)
{
  if ((flags & O_TMPFILE) == O_TMPFILE)
    {
      int a = choose ("open(O_TMPFILE)", 3), c = cand_of_dir (path, strlen (path));
      if (c < 0) { errno = ENOENT; return -1; }
      switch (E.cand[c]) { case C_ABSENT: errno = ENOENT; return -1; case C_MKSTEMP: case C_MKSTEMP_NOEXEC: errno = EOPNOTSUPP; return -1; case C_READONLY: case C_NOACCESS: errno = EACCES; return -1; }
      if (a) { errno = a == 1 ? EMFILE : a == 2 ? EOPNOTSUPP : ENOSPC; return -1; }
      return new_exec_file (c, path, 0);
    }
  int a = choose ("open", 1);
  if (flags & O_CREAT)
    {
      const char *sl = strrchr (path, '/'); int c = sl ? cand_of_dir (path, sl - path) : -1;
      if (c < 0 || E.cand[c] == C_ABSENT || a) { errno = ENOENT; return -1; }
      return new_exec_file (c, path, 1);
    }
  if (a) { errno = EMFILE; return -1; }
  if (!strcmp (path, "/mc/other-binary"))
    {
      static int fd = -1; if (fd < 0) { fd = memfd_create ("other", MFD_CLOEXEC); if (ftruncate (fd, 4 << 20)) {} }
      int f = file_new (); F[f].kind = FK_BIN; F[f].rfd = fd; F[f].fd = 9000 + f; nfd_live++; strcpy (F[f].name, "other binary");
      F[f].len = 4 << 20; return F[f].fd;
    }
  if (strcmp (path, self_path)) { errno = ENOENT; return -1; }
  return bin_open (path);
}
int mc_openat (int d, const char *path, int flags, int mode) { return mc_open (path, flags, mode); }
static int mkstemp_ (char *name)
{
  int a = choose ("mkstemp", 1); char *sl = strrchr (name, '/'); int c = sl ? cand_of_dir (name, sl - name) : -1;
  if (c < 0 || E.cand[c] == C_ABSENT || E.cand[c] == C_READONLY || E.cand[c] == C_NOACCESS || a) { errno = ENOENT; return -1; }
  memcpy (name + strlen (name) - 6, "abcdef", 6);
  return new_exec_file (c, name, 1);
}
int mc_mkstemp (char *name) { return mkstemp_ (name); }
int mc_mkostemp (char *name, int fl) { return mkstemp_ (name); }
int mc_unlink (const char *name)
{
  for (int i = 1; i < NFILE; i++) if (F[i].used && F[i].named && !strcmp (F[i].name, name)) { F[i].named = 0; nname_live--; return 0; }
  violate (V_P15, "unlinks '%s', which it did not create", name); errno = ENOENT; return -1;
}
int mc_close (int fd)
{
  int f = file_by_fd (fd);
  if (!f) { if (fd >= 0) violate (V_P14|V_P21, "closes descriptor %d, which it does not own", fd); errno = EBADF; return -1; }
  if (F[f].named) { violate (V_P15, "closes '%s' without removing its name", F[f].name); nname_live--; }
  if (F[f].kind == FK_EXEC) rfd_drop (f); F[f].used = 0; nfd_live--; return 0;
}
ssize_t mc_write (int fd, const void *b, size_t n)
{
  int f = file_by_fd (fd);
  if (!f) { errno = EBADF; return -1; }
  /* a long series of equal writes: the first four and then every 128th may be refused */
#ifndef MC_THREADS
  if (F[f].wrote > 1000000 && crash_armed) { violate (V_ALL, "the library does not return: 1000000 writes to one file"); siglongjmp (crash_env, 1000); }
#endif
  int k = F[f].wrote++, a = k < 4 || k % 128 == 0 ? choose ("write", 2) : 0;
  if (F[f].kind == FK_EXEC && E.cand[F[f].cand] == C_NOSPACE) { errno = ENOSPC; return -1; }
  if (F[f].kind == FK_EXEC && E.cand[F[f].cand] == C_SHORT) { if (F[f].pos >= 1000) { errno = ENOSPC; return -1; } if (F[f].pos + (long)n > 1000) n = 1000 - F[f].pos; }
  if (a == 1) { errno = ENOSPC; return -1; }
  if (a == 2) n = n / 2;
  /* zeros written at the end need not be written: the file is extended when it is mapped */
  static const char zeros[16384]; int zero = F[f].kind == FK_EXEC && F[f].pos >= F[f].len && n <= sizeof zeros && !memcmp (b, zeros, n);
  if (!zero && pwrite (F[f].rfd, b, n, F[f].pos) != (ssize_t)n) { violate (V_MACH, "pwrite"); }
  if (F[f].pos > F[f].len) { F[f].hole_lo = F[f].len; F[f].hole_hi = F[f].pos; }
  F[f].pos += n; if (F[f].pos > F[f].len) F[f].len = F[f].pos;
  return n;
}
ssize_t mc_pwrite (int fd, const void *b, size_t n, off_t o)
{ int f = file_by_fd (fd); if (!f) { errno = EBADF; return -1; } long pos = F[f].pos; F[f].pos = o; ssize_t r = mc_write (fd, b, n); F[f].pos = pos; return r; }
int mc_fcntl (int fd, int cmd, ...) { if (!file_by_fd (fd)) { errno = EBADF; return -1; } return 0; }
int mc_ftruncate (int fd, off_t len)
{
  int f = file_by_fd (fd); if (!f) { errno = EBADF; return -1; }
  F[f].wrote = 0; if (choose ("ftruncate", 1)) { errno = EIO; return -1; }
  if (len > F[f].len) { F[f].hole_lo = F[f].len; F[f].hole_hi = len; } else if (F[f].hole_hi > len) F[f].hole_hi = len;
  F[f].len = len; return ftruncate (F[f].rfd, len);
}
off_t mc_lseek (int fd, off_t o, int wh)
{ int f = file_by_fd (fd); if (!f) { errno = EBADF; return -1; } if (wh == SEEK_SET) F[f].pos = o; else if (wh == SEEK_CUR) F[f].pos += o; else F[f].pos = F[f].len + o; return F[f].pos; }
ssize_t mc_pread (int fd, void *b, size_t n, off_t o) { int f = file_by_fd (fd); if (!f) { errno = EBADF; return -1; } if (choose ("pread", 1)) { errno = EIO; return -1; } return pread (F[f].rfd, b, n, o); }
ssize_t mc_read (int fd, void *b, size_t n) { int f = file_by_fd (fd); if (!f) { errno = EBADF; return -1; } if (choose ("read", 1)) { errno = EIO; return -1; } n = pread (F[f].rfd, b, n, F[f].pos); F[f].pos += n; return n; }
int mc_fstat (int fd, struct stat *st) { int f = file_by_fd (fd); if (!f) { errno = EBADF; return -1; } int r = fstat (F[f].rfd, st); if (F[f].kind == FK_EXEC) st->st_size = F[f].len; return r; }
int mc_fallocate (int fd, int mode, off_t o, off_t n) { int f = file_by_fd (fd); if (!f || choose ("fallocate", 1) || (F[f].kind == FK_EXEC && (E.cand[F[f].cand] == C_NOSPACE || E.cand[F[f].cand] == C_SHORT))) { errno = ENOSPC; return -1; } if (o + n > F[f].len) { F[f].len = o + n; if (ftruncate (F[f].rfd, o + n)) {} } return 0; }
int mc_posix_fallocate (int fd, off_t o, off_t n) { return mc_fallocate (fd, 0, o, n) ? ENOSPC : 0; }
int mc_access (const char *d, int m)
{ int c = cand_of_dir (d, strlen (d)); int a = choose ("access", 1); if (c < 0 || a || E.cand[c] == C_NOACCESS || E.cand[c] == C_ABSENT) { errno = EACCES; return -1; } return 0; }
char *mc_getenv (const char *n)
{
  int c = !strcmp (n, "LIBFFI_TMPDIR") ? K_LIBFFI : !strcmp (n, "TMPDIR") ? K_TMPDIR : !strcmp (n, "HOME") ? K_HOME : -1;
  if (c < 0) return NULL;
  return E.cand[c] == C_NOACCESS ? NULL : (char *)cand_dir[c];      /* NOACCESS: variable unset; ABSENT: directory missing */
}
int mc_statfs (const char *p, struct statfs *s)
{ memset (s, 0, sizeof *s); if (!strcmp (p, "/selinux") && E.selinux == 1) { s->f_type = 0xf97cff8c; return 0; } if (!strcmp (p, "/sys/fs/selinux") && E.selinux == 2) { s->f_type = 0xf97cff8c; return 0; } if (!strcmp (p, "/selinux") && E.selinux == 3) { s->f_type = 0x1234; return 0; } errno = ENOENT; return -1; }

/* ---- streams ---- */
static FILE *stream (const char *text)
{
  size_t n = strlen (text); FILE *fp = n ? fmemopen (NULL, n + 1, "w+") : fopen ("/dev/null", "r");
  if (n) { fwrite (text, 1, n, fp); rewind (fp); char *q = NULL; (void) q; }
  int f = file_new (); F[f].kind = FK_STREAM; F[f].fp = fp; nfd_live++; return fp;
}
static FILE *stream_text (const char *text)
{
  static char copy[8][8192]; static int k; char *c = copy[k++ & 7]; snprintf (c, 8192, "%s", text);
  FILE *fp = *c ? fmemopen (c, strlen (c), "r") : fopen ("/dev/null", "r");
  int f = file_new (); F[f].kind = FK_STREAM; F[f].fp = fp; nfd_live++; return fp;
}
static void maps_text (char *out, size_t n)
{
  const char *mc_text_probe = (const char *)ffi_call; static char real[300]; u64 lo = 0, hi = 0, off = 0; static u64 clo, chi, coff; static int have;
  if (!have)
    {
      FILE *fp = fopen ("/proc/self/maps", "r"); char l[1024], perm[10]; u64 a, b, o;
      while (fgets (l, sizeof l, fp)) if (sscanf (l, "%lx-%lx %9s %lx", &a, &b, perm, &o) == 4 && (u64)mc_text_probe >= a && (u64)mc_text_probe < b) { clo = a; chi = b; coff = o; have = 1; }
      fclose (fp);
    }
  lo = clo; hi = chi; off = coff; (void) real;
  const char *path = E.maps == MAPS_OTHER ? "/mc/other-binary (deleted)" : E.maps == MAPS_NOOPEN ? "/mc/no such file" : self_path;
  int o = snprintf (out, n, "%lx-%lx r--p 00000000 fd:01 1234   %s\n", lo - 0x10000, lo, path);
  if (E.maps != MAPS_NOENTRY) o += snprintf (out + o, n - o, "%lx-%lx r-xp %08lx fd:01 1234   %s\n", lo, hi, off, path);
  o += snprintf (out + o, n - o, "7f0000000000-7f0000001000 rw-p 00000000 00:00 0 \n7ffc00000000-7ffc00021000 rw-p 00000000 00:00 0                          [stack]\n");
}
static void mounts_text (char *o, int first, int selinux)
{
  *o = 0; if (selinux) o += sprintf (o, "none /sys/fs/selinux selinuxfs rw 0 0\n");
  o += sprintf (o, "proc /proc proc rw,nosuid 0 0\n");
  for (int i = 0; i < 3; i++)
    {
      /* the options may stand anywhere in the list, and other options may contain their letters */
      static const char *const ro[] = { "ro,relatime", "ro", "nosuid,ro,relatime", "nodev,ro" }, *const nx[] = { "rw,noexec", "noexec", "rw,nosuid,noexec,relatime", "noexec,rw" },
        *const plain[] = { "rw,relatime", "rw,errors=remount-ro", "rw,x-noexec.y,norox", "rw" };
      int c = E.cand[first + i], v = (i + (first == K_PM) + E.place) & 3;
      o += sprintf (o, "dev%d %s ext4 %s 0 0\n", i, cand_dir[first + i], c == C_READONLY ? ro[v] : c == C_NOEXECOPT ? nx[v] : plain[v]);
    }
}
static FILE *fopen_ (const char *path)
{
  char t[8192]; int n = strlen (path);
  if (!strncmp (path, "/proc/", 6) && n > 5 && !strcmp (path + n - 5, "/maps")) { if (E.maps == MAPS_NOFILE) { errno = ENOENT; return NULL; } maps_text (t, sizeof t); return stream_text (t); }
  if (!strcmp (path, "/proc/self/status")) { if (E.pax == 4) { errno = ENOENT; return NULL; } snprintf (t, sizeof t, "Name:\tx\nState:\tR\n%sThreads:\t1\n", E.pax == 1 ? "PaX:\tpemrs\n" : E.pax == 2 ? "PaX:\tPeMRs\n" : E.pax == 3 ? "PaX:\tPEMRs\n" : ""); return stream_text (t); }
  if (!strcmp (path, "/proc/mounts")) { if (E.cand[K_PM] == C_ABSENT && E.selinux != 2) { errno = ENOENT; return NULL; } mounts_text (t, K_PM, E.selinux == 2); return stream_text (t); }
  if (!strcmp (path, "/etc/mtab")) { if (E.cand[K_MTAB] == C_ABSENT) { errno = ENOENT; return NULL; } mounts_text (t, K_MTAB, 0); return stream_text (t); }
  errno = ENOENT; return NULL;
}
FILE *mc_fopen (const char *path, const char *m) { if (choose ("fopen", 1)) { errno = EMFILE; return NULL; } return fopen_ (path); }
FILE *mc_setmntent (const char *path, const char *m) { if (choose ("setmntent", 1)) { errno = EMFILE; return NULL; } return fopen_ (path); }
static void stream_close (FILE *fp) { int f = file_by_fp (fp); if (!f) { violate (V_ALL, "closes a stream it does not own"); return; } F[f].used = 0; nfd_live--; fclose (fp); }
int mc_fclose (FILE *fp) { stream_close (fp); return 0; }
int mc_endmntent (FILE *fp) { stream_close (fp); return 1; }
ssize_t mc_getline (char **b, size_t *n, FILE *fp)
{
  char *l = NULL; size_t cap = 0;
  if (choose ("getline", 1)) { return -1; }
  ssize_t r = getline (&l, &cap, fp);
  if (!*b || *n < cap) { void *q = blk_get (cap > 240 ? cap : 240); if (*b) mc_free (*b); *b = q; *n = cap > 240 ? cap : 240; }
  if (r >= 0) memcpy (*b, l, r + 1);
  free (l); return r;
}
ssize_t mc_getdelim (char **b, size_t *n, int d, FILE *fp) { return mc_getline (b, n, fp); }

/* ---- locks: single-threaded here, so taking a held lock is a deadlock ---- */
#ifndef MC_THREADS
int mc_pthread_mutex_init (pthread_mutex_t *m, const void *a) { memset (m, 0, sizeof *m); return 0; }
int mc_pthread_mutex_destroy (pthread_mutex_t *m) { return 0; }
int mc_pthread_mutex_lock (pthread_mutex_t *m)
{
  for (int i = 0; i < nheld; i++) if (held[i] == m) { violate (V_ALL, "deadlock: takes a lock it already holds"); if (crash_armed) siglongjmp (crash_env, 1000); }
  if (nheld < 16) held[nheld++] = m; return 0;
}
int mc_pthread_mutex_trylock (pthread_mutex_t *m) { for (int i = 0; i < nheld; i++) if (held[i] == m) return EBUSY; held[nheld++] = m; return 0; }
int mc_pthread_mutex_unlock (pthread_mutex_t *m)
{ for (int i = 0; i < nheld; i++) if (held[i] == m) { held[i] = held[--nheld]; return 0; } violate (V_ALL, "releases a lock it does not hold"); return 0; }
#endif

/* ---- library state ---- */
extern char __start_mcdata[] __attribute__((weak)), __stop_mcdata[] __attribute__((weak)), __start_mcbss[] __attribute__((weak)), __stop_mcbss[] __attribute__((weak));
static char *data0, *bss0;
static void os_init (void)
{
  struct rlimit rl; if (!getrlimit (RLIMIT_NOFILE, &rl)) { rl.rlim_cur = rl.rlim_max < 4096 ? rl.rlim_max : 4096; setrlimit (RLIMIT_NOFILE, &rl); }
  if (mmap ((void*)ABASE, NPAGE_MAX * PG, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE, -1, 0) != (void*)ABASE
      || mmap ((void*)BBASE, (size_t)NSLOTS * SLOT, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE, -1, 0) != (void*)BBASE) { fprintf (stderr, "no arena\n"); exit (3); }
  ssize_t n = readlink ("/proc/self/exe", self_path, sizeof self_path - 1); if (n <= 0) exit (3); self_path[n] = 0;
  if (!data0) { data0 = malloc (__stop_mcdata - __start_mcdata + 1); memcpy (data0, __start_mcdata, __stop_mcdata - __start_mcdata); bss0 = malloc (__stop_mcbss - __start_mcbss + 1); memcpy (bss0, __start_mcbss, __stop_mcbss - __start_mcbss); }
}
static void os_mode (int fast)
{
  if (fast == os_fast) return;
  if (mmap ((void*)ABASE, NPAGE_MAX * PG, fast ? PROT_READ|PROT_WRITE|PROT_EXEC : PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0) != (void*)ABASE) { fprintf (stderr, "no arena\n"); exit (3); }
  os_fast = fast;
}
static void os_reset (void)
{
  memcpy (__start_mcdata, data0, __stop_mcdata - __start_mcdata); memcpy (__start_mcbss, bss0, __stop_mcbss - __start_mcbss);
  for (size_t i = 0; i < NPAGE && npages_live > 0; i++) if (PGS[i].live)
    { size_t j = i; while (j < NPAGE && PGS[j].live) { PGS[j].live = 0; npages_live--; j++; } if (!os_fast) mmap ((void*)(ABASE + i * PG), (j - i) * PG, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0); i = j; }
  for (int i = 1; i < NFILE; i++) if (F[i].used) { if (F[i].kind == FK_STREAM) fclose (F[i].fp); F[i].used = 0; }
  for (int i = 0; i < npool; i++) pool[i].used = 0;
  while (npool > 32) close (pool[--npool].fd);
  for (int i = 0; i < NSLOTS; i++) { BL[i].live = 0; BL[i].size = 0; }
  npages_live = nfd_live = nblk_live = nname_live = 0; blk_bytes = 0; blk_next = 0; nheld = 0; rwx_seen = 0; norder = 0; ncall = 0; faulted = munmap_refused = 0; faults_on = 0;
  vio = 0; vmsg[0] = 0;
}
static inline u64 hmix (u64 h, u64 v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
static u64 hmem (u64 h, const void *p, size_t n) { const u64 *q = p; for (size_t i = 0; i < n / 8; i++) h = hmix (h, q[i]); return h; }
/* exact image of everything the library can see: its variables, its memory, what it holds */
static u64 os_hash (void)
{
  u64 h = 1;
  h = hmem (h, __start_mcdata, __stop_mcdata - __start_mcdata); h = hmem (h, __start_mcbss, __stop_mcbss - __start_mcbss);
  for (size_t i = 0; i < NPAGE; i++) if (PGS[i].live)
    { h = hmix (h, i * 8 + PGS[i].prot); if ((PGS[i].prot & PROT_WRITE) && i % 64 < 64) { const u64 *q = (u64*)(ABASE + i * PG); h = hmem (h, q, PG); } }
  for (int i = 0; i < NSLOTS; i++) if (BL[i].live) h = hmem (hmix (h, i), (void*)(BBASE + (u64)i * SLOT), BL[i].size);
  for (int i = 1; i < NFILE; i++) if (F[i].used) h = hmix (h, i * 1000003 + F[i].kind * 17 + F[i].cand + F[i].pos * 31);
  return h;
}
