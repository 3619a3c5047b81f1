#include "exer.h"
#include <pthread.h>
#include <string.h>
extern void *memalign(size_t, size_t);
extern void *valloc(size_t);
extern size_t malloc_usable_size(void *);
#undef malloc
#undef free
const char *PROP = "ALL";
unsigned long cases, nontrivial;
static int nfail;
static int outfd = 1;

static void wr(int fd, const char *s) { size_t n = 0; while (s[n]) ++n; ssize_t r = write(fd, s, n); (void)r; }
void failf(const char *prop, const char *fmt, ...) {
  char b[600]; int k; va_list a;
  if (++nfail > 12) return;
  k = snprintf(b, sizeof b, "FAIL %s ", prop);
  va_start(a, fmt); k += vsnprintf(b + k, sizeof b - k - 2, fmt, a); va_end(a);
  if (k > (int)sizeof b - 3) k = sizeof b - 3;
  b[k] = '\n'; b[k + 1] = 0; wr(outfd, b);
}
void sample(const char *fmt, ...) {
  char b[400]; int k; va_list a;
  k = snprintf(b, sizeof b, "SAMPLE ");
  va_start(a, fmt); k += vsnprintf(b + k, sizeof b - k - 2, fmt, a); va_end(a);
  if (k > (int)sizeof b - 3) k = sizeof b - 3;
  b[k] = '\n'; b[k + 1] = 0; wr(outfd, b);
}
static uint64_t rs = 88172645463325252ULL;
uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }

/* ---- /proc/self/maps snapshot */
static struct { uintptr_t a, b; u8 p; } mp[20000];
static int nmp;
static char mbuf[4 << 20];
void snap(void) {
  int fd = open("/proc/self/maps", O_RDONLY), n = 0, r; char *s;
  while ((r = read(fd, mbuf + n, sizeof mbuf - 1 - n)) > 0) n += r;
  close(fd); mbuf[n] = 0; nmp = 0;
  for (s = mbuf; *s && nmp < 20000;) {
    uintptr_t a = 0, b = 0;
    while (*s != '-') { a = a * 16 + (*s <= '9' ? *s - '0' : *s - 'a' + 10); ++s; }
    ++s;
    while (*s != ' ') { b = b * 16 + (*s <= '9' ? *s - '0' : *s - 'a' + 10); ++s; }
    ++s;
    mp[nmp].a = a; mp[nmp].b = b;
    mp[nmp].p = s[0] == 'r' && s[1] == 'w' ? 3 : s[0] == '-' && s[1] == '-' && s[2] == '-' ? 1 : 2;
    ++nmp;
    while (*s && *s != '\n') ++s;
    if (*s) ++s;
  }
}
int perm(uintptr_t a) {
  int lo = 0, hi = nmp;
  while (lo < hi) { int m = (lo + hi) / 2; if (mp[m].b <= a) lo = m + 1; else hi = m; }
  return lo < nmp && mp[lo].a <= a ? mp[lo].p : 0;
}

/* ---- interposition of system and lock calls (linker --wrap) */
long mmap_fail_at, mmap_calls, mmap_fail_count, lock_depth, unprot_nolock;
int (*mmap_pred)(void);
static size_t mmap_max;
static int inwrap;
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_mprotect(void *, size_t, int);
int __real_munmap(void *, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
/* start-up experiments in a fresh process: another page size, mappings refused from the first one on */
static long start_var(const char *k) { char **e; size_t n = 0; long v = 0; while (k[n]) ++n; for (e = environ; e && *e; ++e) { size_t i = 0; while (i < n && (*e)[i] == k[i]) ++i; if (i == n && (*e)[n] == '=') { const char *q = *e + n + 1; while (*q >= '0' && *q <= '9') v = v * 10 + *q++ - '0'; return v; } } return -1; }
long __real_sysconf(int);
long __wrap_sysconf(int n) { if (n == _SC_PAGESIZE) { long v = start_var("EXER_PAGE"); if (v > 0) return v; } return __real_sysconf(n); }
int __wrap_getpagesize(void) { return (int)__wrap_sysconf(_SC_PAGESIZE); }
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  ++mmap_calls;
  { static long from = -2, cnt; if (from == -2) { from = start_var("EXER_REFUSE"); cnt = start_var("EXER_REFUSALS"); } if (from > 0 && mmap_calls >= from && mmap_calls < from + cnt) { errno = ENOMEM; return MAP_FAILED; } }
  if ((mmap_pred && mmap_pred()) || (mmap_fail_count > 0 && --mmap_fail_count >= 0) || (mmap_max && n > mmap_max)) { errno = ENOMEM; return MAP_FAILED; }
  return __real_mmap(a, n, pr, fl, fd, o);
}
static volatile long held;             /* DUMA's mutex held (single mutex) */
static __thread long mine;
static int watch_lock;
int __wrap_mprotect(void *a, size_t n, int pr) {
  if (watch_lock && _duma_g.allocList && (char *)a <= (char *)_duma_g.allocList && (char *)_duma_g.allocList < (char *)a + n && !mine)
    ++unprot_nolock;
  return __real_mprotect(a, n, pr);
}
int __wrap_munmap(void *a, size_t n) { return __real_munmap(a, n); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { int r = __real_pthread_mutex_lock(m); if (!r) { ++held; ++mine; } return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = __real_pthread_mutex_trylock(m); if (!r) { ++held; ++mine; } return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { --held; --mine; return __real_pthread_mutex_unlock(m); }

/* ---- children */
static void unwatch_crash(void);
static void unwatch_(void) { unwatch_crash(); }
int run_child(void (*f)(void *), void *arg, char *out, int outsz) {
  int p[2], st, n = 0, r; pid_t c;
  if (pipe(p)) _exit(98);
  c = fork();
  if (!c) {
    alarm(20);
    unwatch_();
    dup2(p[1], 2); close(p[0]); close(p[1]);
    f(arg); _exit(0);
  }
  close(p[1]);
  if (out) {
    while (n < outsz - 1 && (r = read(p[0], out + n, outsz - 1 - n)) > 0) n += r;
    out[n] = 0;
  }
  { char t[512]; while (read(p[0], t, sizeof t) > 0) ; }
  close(p[0]);
  waitpid(c, &st, 0);
  return st;
}
static int has(const char *s, const char *t) {
  size_t i, j;
  for (i = 0; s[i]; ++i) { for (j = 0; t[j] && s[i + j] == t[j]; ++j) ; if (!t[j]) return 1; }
  return 0;
}
int aborted(int st, const char *out) { return WIFSIGNALED(st) && WTERMSIG(st) == SIGILL && has(out, "DUMA Aborting"); }
static char cout_[70000];
/* what the main process is doing, for the report when the code under test stops or faults in a correct program */
static const char *curop = "start"; static const char *curprops = "C07";
static void on_crash(int s) {
  const char *p = curprops; signal(s, SIG_DFL);
  while (*p) { char one[8]; int k = 0; while (*p && *p != ' ' && k < 7) one[k++] = *p++; one[k] = 0; while (*p == ' ') ++p;
    failf(one, "a correct program was stopped by signal %d in: %s", s, curop); }
  _exit(7);
}
static void watch_crash(void) { static const int S[] = {SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGFPE, SIGALRM}; int i; for (i = 0; i < 6; ++i) signal(S[i], on_crash); }
static void unwatch_crash(void) { static const int S[] = {SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGFPE, SIGALRM}; int i; for (i = 0; i < 6; ++i) signal(S[i], SIG_DFL); }
static const char *how(int st) {
  static char b[300]; int i, k;
  if (WIFEXITED(st)) k = snprintf(b, 100, "returned (exit %d)", WEXITSTATUS(st)); else k = snprintf(b, 100, "killed by signal %d", WTERMSIG(st));
  k += snprintf(b + k, 150, ": %s", cout_);
  for (i = 0; b[i]; ++i) if (b[i] == '\n') b[i] = ' ';
  return b;
}

/* ---- model of the heap */
typedef struct { u8 *p; size_t n; size_t al; int below; int fam; int live; uint32_t seed; int line; int zero; } Blk;
#define MAXB 60000
static Blk *B; static int nB;
static int live_idx[MAXB], nlive;
static int opt_below, opt_fill, opt_slack, opt_align, opt_m0, opt_n0; static long opt_pf;
static u8 pat(uint32_t seed, size_t i) { uint32_t x = seed + (uint32_t)i * 2654435761u; return (u8)(x >> 13) ^ (u8)x; }
static void fillpat(Blk *b) { size_t i; for (i = 0; i < b->n; ++i) b->p[i] = pat(b->seed, i); }
static int mapped_rw(const u8 *p, size_t n) { uintptr_t a; for (a = (uintptr_t)p & ~(PG - 1); a < (uintptr_t)p + n; a += PG) if (perm(a) != 3) return 0; return 1; }
static int none(const u8 *p, size_t n) { uintptr_t a; for (a = (uintptr_t)p & ~(PG - 1); a < (uintptr_t)p + n; a += PG) { int q = perm(a); if (q != 0 && q != 1) return 0; } return 1; }
static size_t def_align(size_t n) { size_t a = opt_align, s = 1; if (n < a) { while (s * 2 <= n) s *= 2; return s; } return a; }

static void check_blk(Blk *b, const char *why) {
  size_t i; uintptr_t p = (uintptr_t)b->p, e = p + b->n, q;
  const char *gp = b->below ? "C02" : "C01";
  if (b->n == 0) {
    if (b->zero == 3 && perm(p) == 3) failf("C11", "%s: zero-size block %p is accessible", why, b->p);
    return;
  }
  if (!mapped_rw(b->p, b->n)) { failf(gp, "%s: block %p of %zu bytes is not fully accessible", why, b->p, b->n); failf("C04", "%s: block %p of %zu bytes lost its accessibility", why, b->p, b->n); failf("C12", "%s: block %p provides less than %zu bytes", why, b->p, b->n); return; }
  if (p & (b->al - 1)) failf("C03", "%s: block %p of %zu bytes is not aligned to %zu", why, b->p, b->n, b->al);
  if (!b->below) {
    q = (e + PG - 1) & ~(PG - 1);
    if (perm(q) == 3 || perm(q) == 2) failf("C01", "%s: page %p after block %p of %zu bytes is accessible", why, (void *)q, b->p, b->n);
    if (q - e >= b->al) failf("C01", "%s: %zu unguarded bytes between block %p of %zu bytes and the guard page, alignment %zu", why, (size_t)(q - e), b->p, b->n, b->al);
  } else {
    if (p & (PG - 1)) failf("C02", "%s: below-protected block %p does not start right after a page", why, b->p);
    else if (perm(p - PG) == 3 || perm(p - PG) == 2) failf("C02", "%s: page before block %p of %zu bytes is accessible", why, b->p, b->n);
  }
  for (i = 0; i < b->n; ++i) if (b->p[i] != pat(b->seed, i)) { failf("C04", "%s: byte %zu of live block %p of %zu bytes changed", why, i, b->p, b->n); failf("C10", "%s: byte %zu of live block %p of %zu bytes changed", why, i, b->p, b->n); break; }
  for (q = p & ~(PG - 1); q < p; ++q) if (*(u8 *)q != opt_slack) { failf("C08", "%s: no man's land before block %p of %zu bytes not filled", why, b->p, b->n); break; }
  for (q = e; q & (PG - 1); ++q) if (*(u8 *)q != opt_slack) { failf("C08", "%s: no man's land after block %p of %zu bytes not filled", why, b->p, b->n); break; }
  { size_t u = _duma_malloc_usable_size(b->p, SITE_F, 1); if (u != b->n) { failf("C24", "%s: malloc_usable_size(%p) is %zu, requested %zu", why, b->p, u, b->n); failf("C04", "recorded size of %p changed from %zu to %zu", b->p, b->n, u); } }
}
extern unsigned long wb_tablesize(void) __attribute__((weak));
static void check_table(const char *why) {
  uintptr_t a = (uintptr_t)_duma_g.allocList;
  snap();
  size_t tsz = wb_tablesize ? wb_tablesize() : PG, k;
  for (k = 0; k < tsz; k += PG) if (perm(a + k) == 3 || perm(a + k) == 2) { failf("C13", "%s: page %zu of DUMA's block table (%zu bytes) is accessible in user code", why, (size_t)(k / PG), tsz); break; }
  if (held || mine) failf("C14", "%s: the lock is still held at return (depth %ld)", why, held);
  if (unprot_nolock) { failf("C14", "%s: the block table was opened or closed without holding the lock", why); unprot_nolock = 0; }
}
static int olap(const u8 *p, size_t n, const u8 *q, size_t m) { return p < q + m && q < p + n; }
static void addblk(u8 *p, size_t n, size_t al, int fam, int line, const char *why) {
  int i; Blk *b;
  for (i = 0; i < nB; ++i) {
    Blk *o = &B[i];
    size_t m = o->n ? o->n : 1, nn = n ? n : 1;
    if (o->live && olap(p, nn, o->p, m)) failf(n && o->n ? "C04" : "C11", "%s: new block %p of %zu bytes overlaps live block %p of %zu bytes", why, p, n, o->p, o->n);
    if (!o->live && opt_pf < 0 && o->n && olap(p, nn, o->p, m)) failf("C05", "%s: freed memory %p of %zu bytes handed out again as %p of %zu bytes", why, o->p, o->n, p, n);
  }
  if (nB >= MAXB) _exit(97);
  b = &B[nB]; b->p = p; b->n = n; b->al = al; b->below = opt_below; b->fam = fam; b->live = 1; b->seed = (uint32_t)rnd(); b->line = line; b->zero = n ? 0 : 3;
  live_idx[nlive++] = nB++;
  fillpat(b);
  ++nontrivial;
}
static void check_fill(const char *why, u8 *p, size_t n, int fill) {
  size_t i; if (fill == -1) return;
  for (i = 0; i < n; ++i) if (p[i] != (u8)fill) { failf("C09", "%s: byte %zu of new block of %zu bytes is %d, expected %d", why, i, n, p[i], fill); return; }
}
static const size_t SZ[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 1023, 1024, 4090, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 20000, 65535, 65536, 65537};
static size_t rsize(void) { switch (rnd() % 8) { case 0: return 1 + rnd() % 9000; case 1: return (rnd() % 40 == 0) ? (1 << 20) - 4096 - 5 + rnd() % 10 : 1 + rnd() % 300; default: return SZ[rnd() % (sizeof SZ / sizeof *SZ)]; } }
static u8 *vol;
static char strb[70000];

static void op_alloc(int kind) {
  size_t n = rsize(), al = 0, i; u8 *p = 0; int fam = 0, fill = opt_fill, line = 1 + rnd() % 9999, known = rnd() & 1; char why[60];
  if (rnd() % 24 == 0) n = 0;
  ++cases;
  switch (kind) {
  case 0: p = known ? _duma_malloc(n, SITE_F, line) : malloc(n); al = def_align(n); snprintf(why, 60, "malloc(%zu)", n); break;
  case 1: { size_t a = 1 + rnd() % 12, b = n / a; if (n && !b) b = 1; if (n) n = a * b; else a = 0; if (!n) { a = rnd() & 1 ? 0 : 5; b = a ? 0 : 5; }
      p = known ? _duma_calloc(a, b, SITE_F, line) : calloc(a, b); al = def_align(n); fill = 0; snprintf(why, 60, "calloc(%zu,%zu)", a, b); break; }
  case 2: al = (size_t)1 << (rnd() % 16); p = known ? _duma_memalign(al, n, SITE_F, line) : memalign(al, n); snprintf(why, 60, "memalign(%zu,%zu)", al, n); break;
  case 3: { void *q = &vol; int r; al = (size_t)8 << (rnd() % 12); r = known ? _duma_posix_memalign(&q, al, n, SITE_F, line) : posix_memalign(&q, al, n); p = r ? 0 : q; snprintf(why, 60, "posix_memalign(%zu,%zu)", al, n); break; }
  case 4: al = PG; p = known ? _duma_valloc(n, SITE_F, line) : valloc(n); snprintf(why, 60, "valloc(%zu)", n); break;
  case 5: p = known ? _duma_realloc(0, n, SITE_F, line) : realloc(0, n); al = def_align(n); snprintf(why, 60, "realloc(0,%zu)", n); break;
  case 6: if (n > 66000) n = 66000; if (!n) n = 1; for (i = 0; i + 1 < n; ++i) strb[i] = 1 + (rnd() % 255); strb[n - 1] = 0; 
      p = (u8 *)(known ? _duma_strdup(strb, SITE_F, line) : strdup(strb)); al = def_align(n); fill = -1; snprintf(why, 60, "strdup(len %zu)", n - 1);
      if (p) for (i = 0; i < n; ++i) if (p[i] != (u8)strb[i]) { failf("C09", "%s: byte %zu differs", why, i); break; }
      break;
  default: { int f = rnd() % NNEW; p = pp_new(f, n); fam = pp_fam(f); al = def_align(n); known = f >= 4; line = 71 + (f & 3); snprintf(why, 60, "operator new form %d (%zu)", f, n); }
  }
  if (!known) line = 0;
  if (n == 0) {
    int st = fam ? opt_n0 : opt_m0;
    if (st == 1 && p) failf("C11", "%s: strategy 1 returned %p", why, p);
    if (st == 2 && p != _duma_g.null_addr) failf("C11", "%s: strategy 2 did not return the constant address", why);
    if ((st == 2 || st == 3) && !p) failf("C11", "%s: strategy %d returned NULL", why, st);
    if (st == 3 && p == _duma_g.null_addr) failf("C11", "%s: strategy 3 returned the shared address", why);
    check_table(why);
    if (p && perm((uintptr_t)p) == 3) failf("C11", "%s: zero-size address %p is accessible", why, p);
    if (p == _duma_g.null_addr) { size_t u = _duma_malloc_usable_size(p, SITE_F, 1); if (u) failf("C24", "usable size of the shared zero address is %zu", u); if (rnd() & 1) pp_del(0, p); else free(p); duma_check(p); }
    else if (p) addblk(p, 0, 1, fam, line, why);
    return;
  }
  if (!p) { failf("C07", "%s: failed although memory is available", why); failf("C12", "%s: failed although memory is available", why); return; }
  check_table(why);
  if (!mapped_rw(p, n)) { failf(opt_below ? "C02" : "C01", "%s: returned block %p of %zu bytes is not fully accessible", why, p, n); failf("C12", "%s: returned block %p provides less than %zu bytes", why, p, n); _exit(0); }
  check_fill(why, p, n, fill);
  addblk(p, n, al, fam, line, why);
  check_blk(&B[nB - 1], why);
}
static void freed_check(Blk *b, const char *why) {
  b->live = 0;
  check_table(why);
  if (b->n && !none(b->p, b->n)) failf("C05", "%s: freed block %p of %zu bytes is still accessible", why, b->p, b->n);
}
static void op_free(void) {
  int k; Blk *b; int known = rnd() & 1; char why[60];
  if (!nlive) return;
  ++cases; ++nontrivial;
  k = rnd() % nlive; b = &B[live_idx[k]]; live_idx[k] = live_idx[--nlive];
  snap(); check_blk(b, "before free");
  snprintf(why, 60, "free(%p, %zu bytes, family %d)", (void *)b->p, b->n, b->fam);
  if (b->fam == 0) { if (b->n && rnd() % 6 == 0) { if (_duma_realloc(b->p, 0, SITE_F, 9)) failf("C10", "realloc(p,0) did not return NULL"); } else if (known) _duma_free(b->p, SITE_F, 5); else free(b->p); }
  else { int f = (rnd() & 1) + (rnd() & 1) * 4 + (b->fam == 2 ? 2 : 0); pp_del(f, b->p); }
  freed_check(b, why);
}
static void op_realloc(void) {
  int k; Blk *b; size_t n = 1 + rsize(), m, i; u8 *p; char why[80]; int line = 1 + rnd() % 9999, known = rnd() & 1;
  if (!nlive) return;
  k = rnd() % nlive; b = &B[live_idx[k]];
  if (b->fam) return;
  ++cases; ++nontrivial;
  snprintf(why, 80, "realloc(%p: %zu -> %zu)", (void *)b->p, b->n, n);
  p = known ? _duma_realloc(b->p, n, SITE_F, line) : realloc(b->p, n);
  if (!p) { failf("C07", "%s failed although memory is available", why); return; }
  live_idx[k] = live_idx[--nlive];
  freed_check(b, why);
  if (!mapped_rw(p, n)) { failf("C12", "%s: returned block %p provides less than %zu bytes", why, p, n); failf("C10", "%s: returned block is not accessible", why); _exit(0); }
  m = b->n < n ? b->n : n;
  for (i = 0; i < m; ++i) if (p[i] != pat(b->seed, i)) { failf("C10", "%s: byte %zu not preserved", why, i); break; }
  for (; i < n; ++i) if (i >= b->n && p[i]) { failf("C10", "%s: byte %zu beyond the old size is %d, not zero", why, i, p[i]); break; }
  addblk(p, n, def_align(n), 0, known ? line : 0, why);
  check_blk(&B[nB - 1], why);
}
/* invalid uses, each in a child */
static struct { int op; void *p; int fam; } IA;
static Blk *iab; static int in_ill;
static int illfd = -1;
static void on_ill(int s) {
  int i; (void)s;
  nfail = 0;
  watch_lock = 0;
  snap();
  for (i = 0; i < nlive && i < 200; ++i) {
    Blk *b = &B[live_idx[i]]; size_t j;
    if (!b->n) continue;
    if (!mapped_rw(b->p, b->n)) { failf("C06", "block %p changed protection before the diagnosed operation terminated", b->p); failf("C18", "block %p changed before the mismatch was diagnosed", b->p); continue; }
    for (j = 0; j < b->n; ++j) if (b->p[j] != pat(b->seed, j)) { failf("C06", "block %p changed before the diagnosed operation terminated", b->p); break; }
  }
  { sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGILL); signal(SIGILL, SIG_DFL); sigprocmask(SIG_UNBLOCK, &ss, 0); raise(SIGILL); } _exit(5);
}
static void do_ia(void *x) {
  (void)x;
  signal(SIGILL, on_ill);
  { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGILL); sigprocmask(SIG_UNBLOCK, &s, 0); }
  switch (IA.op) {
  case 0: _duma_free(IA.p, SITE_F, 3); break;
  case 1: free(IA.p); break;
  case 2: _duma_realloc(IA.p, 10, SITE_F, 3); break;
  case 3: realloc(IA.p, 0); break;
  case 4: duma_check(IA.p); break;
  case 5: _duma_malloc_usable_size(IA.p, SITE_F, 3); break;
  case 6: realloc(IA.p, 20000); break;
  default: pp_del(IA.op - 7, IA.p); break;
  }
}
static const char *IAN[] = {"free", "free", "realloc", "realloc(,0)", "duma_check", "malloc_usable_size", "realloc", "delete", "delete(nothrow)", "delete[]", "delete[](nothrow)", "delete", "delete", "delete[]", "delete[]"};
static void expect_diag(const char *prop, int op, void *p, const char *what) {
  int st; IA.op = op; IA.p = p;
  ++cases; ++nontrivial;
  st = run_child(do_ia, 0, cout_, sizeof cout_);
  if (!aborted(st, cout_)) failf(prop, "%s of %s (%p) was not diagnosed: %s", IAN[op], what, p, how(st));
}
static void expect_ok(const char *prop, int op, void *p, const char *what) {
  int st; IA.op = op; IA.p = p;
  ++cases; ++nontrivial;
  st = run_child(do_ia, 0, cout_, sizeof cout_);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) failf(prop, "%s of %s (%p): %s", IAN[op], what, p, how(st));
}
static int is_live_start(void *p) { int i; for (i = 0; i < nlive; ++i) if (B[live_idx[i]].p == (u8 *)p) return 1; return p == 0 || p == _duma_g.null_addr; }
static int retained(Blk *b) { return 1; }
static void op_invalid(void) {
  int op = rnd() % 15, k; void *p = 0; const char *what = "";
  switch (rnd() % 8) {
  case 0: if (nlive) { Blk *b = &B[live_idx[rnd() % nlive]]; p = b->p + 1 + (b->n ? rnd() % b->n : 0); what = "an interior address"; } break;
  case 1: if (nlive) { Blk *b = &B[live_idx[rnd() % nlive]]; p = b->p - 1 - rnd() % 64; what = "an address before a block"; } break;
  case 2: case 3: if (nB) { Blk *b = &B[rnd() % nB]; if (!b->live && b->n) { p = b->p; what = "a freed block"; } } break;
  case 4: p = _duma_g.allocList; what = "the internal block table"; break;
  case 5: p = (void *)rnd(); what = "an arbitrary address"; break;
  case 6: p = &k; what = "a stack address"; break;
  case 7: p = (char *)_duma_g.null_addr + 1 + rnd() % 64; what = "an address next to the shared zero-size address"; break;
  }
  if (!p || is_live_start(p)) return;
  expect_diag("C06", op, p, what);
}
static void op_mismatch(void) {
  Blk *b; int f;
  if (!nlive) return;
  b = &B[live_idx[rnd() % nlive]];
  if (b->fam == 0) expect_diag("C18", 7 + rnd() % 8, b->p, "a malloc-family block");
  else if (rnd() % 3 == 0) expect_diag("C18", rnd() % 2 ? (rnd() & 1) : 2 + (rnd() & 1), b->p, b->fam == 1 ? "a scalar-new block" : "an array-new block");
  else { do f = rnd() % 8; while (pp_fam(f) == b->fam); expect_diag("C18", 7 + f, b->p, b->fam == 1 ? "a scalar-new block" : "an array-new block"); }
}
static void op_valid(void) {
  Blk *b; int op;
  if (!nlive) return;
  b = &B[live_idx[rnd() % nlive]];
  if (b->fam == 0) { static const int o[] = {0, 1, 2, 3, 4, 5, 6}; op = o[rnd() % 7]; } else { int f = (rnd() & 1) + (rnd() & 1) * 4 + (b->fam == 2 ? 2 : 0); op = rnd() % 3 ? 7 + f : 4 + (rnd() & 1); }
  expect_ok(op >= 7 ? "C18" : "C07", op, b->p, "a live block");
}
/* damage of no man's land */
static struct { u8 *at; int how; Blk *b; } DM;
static void do_dm(void *x) {
  (void)x;
  *DM.at ^= 1 + (rnd() % 255);
  switch (DM.how) {
  case 0: if (DM.b->fam) pp_del(DM.b->fam == 2 ? 2 : 0, DM.b->p); else free(DM.b->p); break;
  case 1: duma_check(DM.b->p); break;
  case 2: duma_checkAll(); break;
  case 3: if (DM.b->fam) duma_check(DM.b->p); else realloc(DM.b->p, 1 + rnd() % 5000); break;
  }
}
extern int wb_slot(unsigned long, unsigned long *) __attribute__((weak));
static void op_damage(void) {
  Blk *b; uintptr_t lo, hi, p, e; size_t gap; int st;
  if (!nlive) return;
  b = &B[live_idx[rnd() % nlive]];
  if (!b->n) return;
  p = (uintptr_t)b->p; e = p + b->n; lo = p & ~(PG - 1); hi = (e + PG - 1) & ~(PG - 1);
  if (wb_slot && rnd() % 2) { /* all accessible pages of the block's region */
    unsigned long i, v[7]; int wl = watch_lock;
    watch_lock = 0;
    for (i = 0; wb_slot(i, v); ++i) if (v[0] == 2 && v[4] == p) {
      if (b->below) { if (v[2] + v[3] > hi) hi = v[2] + v[3]; } else if (v[2] < lo) lo = v[2];
      break;
    }
    watch_lock = wl;
  }
  gap = (p - lo) + (hi - e);
  if (!gap) return;
  ++cases; ++nontrivial;
  { size_t k; switch (rnd() % 6) { case 0: k = 0; break; case 1: k = gap - 1; break; case 2: k = p - lo ? p - lo - 1 : 0; break; case 3: k = p - lo < gap ? p - lo : 0; break; default: k = rnd() % gap; }
    DM.at = (u8 *)(k < p - lo ? lo + k : e + (k - (p - lo))); }
  DM.how = rnd() % 4; DM.b = b;
  st = run_child(do_dm, 0, cout_, sizeof cout_);
  if (!aborted(st, cout_)) failf("C08", "overwrite of %p outside block %p of %zu bytes not reported by %s: %s", (void *)DM.at, b->p, b->n, DM.how == 0 ? "free" : DM.how == 1 ? "duma_check" : DM.how == 2 ? "duma_checkAll" : "realloc", how(st));
}
/* leak report */
static void do_rep(void *x) { (void)x; DUMA_delFrame(); check_table("DUMA_delFrame"); _exit(0); }
static const char *findn(const char *s, const char *t, int n) { int i; for (; *s; ++s) { for (i = 0; i < n && s[i] == t[i]; ++i) ; if (i == n) return s; } return 0; }
static char rep[8 << 20];
static int envi(const char *k, int d) { const char *s = getenv(k); return s ? atoi(s) : d; }
static int base_cnt, base_all;
static void totals(int *a, int *x) { const char *q = strstr(rep, "DUMA: Reported "); *a = *x = -1; if (q) *a = atoi(q + 15); q = strstr(rep, "There are "); if (q) *x = atoi(q + 10); }
static void op_report(void) {
  int i, all = envi("DUMA_REPORT_ALL_LEAKS", 0), st, want = 0, cnt = 0; const char *s;
  ++cases; ++nontrivial;
  st = run_child(do_rep, 0, rep, sizeof rep);
  if (!WIFEXITED(st)) { failf("C17", "DUMA_delFrame was killed by signal %d", WTERMSIG(st)); failf("C07", "DUMA_delFrame was killed by signal %d", WTERMSIG(st)); return; }
  for (s = rep; (s = strstr(s, "DUMA: ptr=")); ++s) ++cnt;
  for (i = 0; i < nB; ++i) {
    Blk *b = &B[i]; char key[64]; int k, c = 0; const char *q;
    k = snprintf(key, 64, "ptr=0x%lx size=%lu ", (unsigned long)b->p, (unsigned long)b->n);
    for (q = rep; (q = findn(q, key, k)); ++q) ++c;
    if (b->live && (all || b->line > 0)) { ++want; if (c != 1) failf("C17", "live block %p of %zu bytes (line %d) is reported %d times", b->p, b->n, b->line, c); }
    else if (c && b->live) failf("C17", "block %p without site information is reported although not asked for", b->p);
    else if (c) { int j, dup = 0; for (j = 0; j < nlive; ++j) if (B[live_idx[j]].p == b->p && B[live_idx[j]].n == b->n) dup = 1; if (!dup) failf("C17", "freed block %p is reported", b->p); }
    if (b->live && b->line > 0 && c == 1) { char k2[96]; const char *r; q = findn(rep, key, k); r = strchr(q, '\n'); snprintf(k2, 96, "%s(%d)", SITE_F, b->line); { static char ln[600]; int z = 0; while (q[z] && z < 400 && !(q[z] == '\n' && z > 0)) { ln[z] = q[z]; ++z; } ln[z] = 0; if (!strstr(ln, k2) && !strstr(q, k2)) failf("C17", "report of block %p does not name its site %s", b->p, k2); } (void)r; }
  }
  if (cnt != want + base_cnt) failf("C17", "report lists %d blocks, %d live blocks have to be reported", cnt, want + base_cnt);
  { int a, x, ea = want + base_cnt, ex = nlive + base_all - ea; totals(&a, &x);
    if (ea + ex ? (a != ea || x != ex) : (a > 0 || x > 0)) failf("C17", "totals say %d reported, %d further leaks; %d and %d are right", a, x, ea, ex); }
}
static void rep_base(void) { const char *s; int a, x, st = run_child(do_rep, 0, rep, sizeof rep); if (!WIFEXITED(st)) return; for (s = rep; (s = strstr(s, "DUMA: ptr=")); ++s) ++base_cnt; totals(&a, &x); base_all = a < 0 ? 0 : a + x; }
static void setup_model(void) {
  opt_below = envi("DUMA_PROTECT_BELOW", 0) != 0; opt_fill = envi("DUMA_FILL", 255); if (opt_fill != -1) opt_fill &= 255;
  opt_slack = envi("DUMA_SLACKFILL", 0xAA) & 255; opt_align = envi("DUMA_ALIGNMENT", 1); opt_pf = envi("DUMA_PROTECT_FREE", -1);
  opt_m0 = envi("DUMA_MALLOC_0_STRATEGY", envi("MALLOC_0_STRATEGY", 3)); opt_n0 = envi("DUMA_NEW_0_STRATEGY", envi("NEW_0_STRATEGY", 3));
  B = __real_mmap(0, sizeof(Blk) * MAXB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
static void final_check(void) { int i; snap(); for (i = 0; i < nlive; ++i) check_blk(&B[live_idx[i]], "at the end of the history"); }
static void hist(int nops, const char *mix) {
  int i; watch_lock = 1;
  sample("history of %d operations, seed-dependent, mix '%s', below=%d align=%d fill=%d slack=%d protect_free=%ld", nops, mix, opt_below, opt_align, opt_fill, opt_slack, opt_pf);
  for (i = 0; i < nops; ++i) {
    const char *m = mix; char c = m[rnd() % strlen(m)];
    if (nfail > 6) break;
    if (nlive > 400 && c == 'a') c = 'f';
    curop = c == 'a' || c == 'A' ? "allocation" : c == 'f' ? "release of a live block" : c == 'r' ? "realloc of a live block" : c == 'c' ? "check of undamaged blocks" : c == 'n' ? "operation on NULL" : c == 'V' ? "access to a live block" : "other";
    curprops = c == 'a' || c == 'A' ? "C07 C12" : c == 'f' ? "C07 C18" : c == 'r' ? "C07 C10" : c == 'c' ? "C07 C08" : c == 'V' ? "C07 C04" : "C07";
    switch (c) {
    case 'a': op_alloc(rnd() % 10); break;
    case 'A': op_alloc(0); break;
    case 'f': op_free(); break;
    case 'r': op_realloc(); break;
    case 'i': op_invalid(); break;
    case 'm': op_mismatch(); break;
    case 'v': op_valid(); break;
    case 'd': op_damage(); break;
    case 'R': op_report(); break;
    case 'c': snap(); if (rnd() & 1) duma_checkAll(); else if (nlive) duma_check(B[live_idx[rnd() % nlive]].p); check_table("duma_check"); break;
    case 'n': free(0); pp_del(rnd() % 8, 0); duma_check(0); if (_duma_malloc_usable_size(0, SITE_F, 1)) failf("C24", "malloc_usable_size(NULL) is not 0"); check_table("operations on NULL"); break;
    case 'V': if (nlive) { int k = 1 + rnd() % 3; while (k--) { Blk *b; snap(); b = &B[live_idx[rnd() % nlive]]; check_blk(b, "later"); } } break;
    }
  }
  final_check();
}
#include "scen.c"
int main(int ac, char **av) {
  unsigned long seed = ac > 2 ? strtoul(av[2], 0, 10) : 1;
  outfd = dup(1);
  rs ^= seed * 0x9E3779B97F4A7C15ULL; rnd(); rnd();
  setup_model();
  watch_crash(); alarm(100);
  if (!strcmp(av[1], "hist") && strchr(av[4], 'R')) rep_base();
  if (!strcmp(av[1], "hist")) hist(atoi(av[3]), av[4]);
  else if (!strcmp(av[1], "new")) curop = "operator new", curprops = "C21 C07", pp_main(av[1]);
  else if (!scen(av[1], ac, av)) { wr(outfd, "UNKNOWN\n"); _exit(2); }
  { char b[100]; snprintf(b, 100, "DONE %lu %lu\n", cases, nontrivial); wr(outfd, b); }
  _exit(0);
}
