/* scenarios of the exerciser (included by exer.c) */
extern long wb_tracked(void) __attribute__((weak));
extern long wb_true(void) __attribute__((weak));
extern int wb_slot(unsigned long, unsigned long *) __attribute__((weak));
extern unsigned long wb_tablesize(void) __attribute__((weak));
extern unsigned long wb_null_block(void) __attribute__((weak));
extern int wb_options(char *, int) __attribute__((weak));

/* ---------------- C19, C20: memory and string functions */
static sigjmp_buf jb;
static volatile int jb_on;
static void ill(int s) { if (jb_on) siglongjmp(jb, s); signal(s, SIG_DFL); raise(s); }
static u8 area[3000], want[3000], before[3000];
static u8 *SP, *DP; static size_t NN; static int SK;
static volatile long retv;
static void callstr(void) {
  switch (SK) {
  case 0: retv = (long)_duma_memcpy(DP, SP, NN, SITE_F, 1); break;
  case 1: retv = (long)memcpy(DP, SP, NN); break;
  case 2: retv = (long)_duma_memmove(DP, SP, NN); break;
  case 3: retv = (long)memmove(DP, SP, NN); break;
  case 4: retv = (long)_duma_strcpy((char *)DP, (char *)SP, SITE_F, 1); break;
  case 5: retv = (long)strcpy((char *)DP, (char *)SP); break;
  case 6: retv = (long)_duma_strncpy((char *)DP, (char *)SP, NN, SITE_F, 1); break;
  case 7: retv = (long)strncpy((char *)DP, (char *)SP, NN); break;
  case 8: retv = (long)_duma_strcat((char *)DP, (char *)SP, SITE_F, 1); break;
  case 9: retv = (long)strcat((char *)DP, (char *)SP); break;
  case 10: retv = (long)_duma_strncat((char *)DP, (char *)SP, NN, SITE_F, 1); break;
  case 11: retv = (long)strncat((char *)DP, (char *)SP, NN); break;
  }
}
static const char *SKN[] = {"memcpy", "memmove", "strcpy", "strncpy", "strcat", "strncat"};
static int disj(size_t d, size_t n, size_t s, size_t m) { return !n || !m || d + n <= s || s + m <= d; }
static size_t slen(const u8 *b, size_t at, size_t max) { size_t i = 0; while (i < max && b[at + i]) ++i; return i; }
static void one_str(int k, size_t s, size_t d, size_t n, const char *desc) {
  size_t i, T, D, R, wn, e; int must = 0, may = 0, ok = 1, over = envi("DUMA_MEMCPY_OVERLAP", 0) != 0, sig; const char *fn = SKN[k / 2];
  ++cases; ++nontrivial;
  for (i = 0; i < sizeof area; ++i) want[i] = before[i] = area[i];
  switch (k / 2) {
  case 0: must = may = !disj(d, n, s, n) && d != s && (s < d || !over); for (i = 0; i < n; ++i) want[d + i] = before[s + i]; break;
  case 1: for (i = 0; i < n; ++i) want[d + i] = before[s + i]; break;
  case 2: T = slen(before, s, 2000); must = s < d && d <= s + T; may = !disj(d, T + 1, s, T + 1) && d != s; ok = disj(d, T + 1, s, T + 1) || d == s; for (i = 0; i <= T; ++i) want[d + i] = before[s + i]; break;
  case 3: T = slen(before, s, n); R = T < n ? T + 1 : T; must = n && s < d && d < s + R; may = !disj(d, n, s, n) && d != s; ok = disj(d, n, s, R) || d == s;
    for (i = 0; i < n; ++i) want[d + i] = i < T ? before[s + i] : 0; break;
  case 4: T = slen(before, s, 2000); D = slen(before, d, 2000); e = d + D; must = s < e && e <= s + T; may = !disj(d, D + T + 1, s, T + 1); ok = disj(e, T + 1, s, T + 1); for (i = 0; i <= T; ++i) want[e + i] = before[s + i]; break;
  case 5: T = slen(before, s, n); R = T < n ? T + 1 : T; D = slen(before, d, 2000); e = d + D; must = n && s < e && e < s + R; may = n && !disj(d, D + T + 1, s, R); ok = disj(e, T + 1, s, R);
    for (i = 0; i < T; ++i) want[e + i] = before[s + i]; want[e + T] = 0; break;
  }
  (void)wn;
  SK = k; SP = area + s; DP = area + d; NN = n; sig = 0;
  jb_on = 1;
  if (!(sig = sigsetjmp(jb, 1))) callstr();
  jb_on = 0;
  if (sig) {
    if (sig != SIGILL) failf("C19", "%s(dest=%zu, src=%zu, n=%zu) crashed with signal %d [%s]", fn, d, s, n, sig, desc);
    else {
      if (!may) failf("C20", "%s(dest=%zu, src=%zu, n=%zu) diagnosed although nothing overlaps [%s]", fn, d, s, n, desc);
      for (i = 0; i < sizeof area; ++i) if (area[i] != before[i]) { failf("C20", "%s(dest=%zu, src=%zu, n=%zu) wrote byte %zu before the diagnosis [%s]", fn, d, s, n, i, desc); break; }
    }
    return;
  }
  if (must) { failf("C20", "%s(dest=%zu, src=%zu, n=%zu) returned although destination and source overlap [%s]", fn, d, s, n, desc); return; }
  if (!ok) return;
  if (retv != (long)DP) failf("C19", "%s(dest=%zu, src=%zu, n=%zu) did not return the destination [%s]", fn, d, s, n, desc);
  for (i = 0; i < sizeof area; ++i) if (area[i] != want[i]) { failf("C19", "%s(dest=%zu, src=%zu, n=%zu): byte at %zu is %d, expected %d [%s]", fn, d, s, n, i, area[i], want[i], desc); break; }
}
static void fill_area(int textlen) { size_t i; for (i = 0; i < sizeof area; ++i) { area[i] = (u8)rnd(); if (!area[i]) area[i] = 200; } (void)textlen; }
static void strings(int rounds) {
  int r, k; int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 2);
  signal(SIGILL, ill); signal(SIGSEGV, ill);
  for (r = 0; r < rounds && nfail < 6; ++r)
    for (k = 0; k < 12; ++k) {
      size_t n = rnd() % 3 ? rnd() % 12 : rnd() % 300, L = rnd() % 3 ? rnd() % 12 : rnd() % 260, D = rnd() % 8, s = 1000 + rnd() % 16, d;
      int rel = rnd() % 6; char desc[60];
      if (rnd() % 3 == 0) n = L + rnd() % 3 - (L ? 1 : 0);
      switch (rel) {
      case 0: d = s + L + 1 + n + rnd() % 4; break;
      case 1: d = s > n + L + D ? s - (n + L + D + 1) - rnd() % 3 : 1; break;
      case 2: d = s + rnd() % (L + 3); break;
      case 3: d = s - rnd() % (L + n + 3); break;
      case 4: d = s + L + 1 + (rnd() % 3) - 1; break;
      default: d = s + (k / 2 < 2 ? n : L) + rnd() % 3 - 1; break;
      }
      fill_area(0);
      area[s + L] = 0;
      if (k / 2 >= 4) {      /* destination is a string of length D that ends before the source starts, or after it */
        if (rel == 2 || rel == 4 || rel == 5) { d = d >= D ? d - D : 0; }
        if (d + D == s + L || 1) { size_t q; for (q = 0; q < D; ++q) if (!area[d + q]) area[d + q] = 'z'; area[d + D] = 0; }
      }
      snprintf(desc, 60, "source text %zu, destination text %zu", slen(area, s, 2000), slen(area, d, 2000));
      one_str(k, s, d, n, desc);
    }
  sample("12 entry points, random lengths 0..300 and source/destination distances around every boundary");
}
/* lengths of 4 GiB and more: the source is read-only zero pages or one repeated text page; the destination is a
 * small file mapped over and over */
static u8 *rep_map(size_t total, size_t unit, int fillc) {
  size_t o; int fd = memfd_create("x", 0); u8 *b; static u8 page[1 << 16]; size_t i;
  if (ftruncate(fd, unit)) _exit(3);
  for (i = 0; i < sizeof page; ++i) page[i] = (u8)fillc;
  for (o = 0; o < unit; o += sizeof page) if (write(fd, page, sizeof page) < 0) _exit(3);
  b = __real_mmap(0, total + 4 * unit, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) { wr(outfd, "NOMEM\n"); _exit(3); }
  for (o = 0; o < total; o += unit) if (__real_mmap(b + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { wr(outfd, "NOMEM\n"); _exit(3); }
  close(fd); return b;
}
static void bigstr(int k, size_t L) {
  size_t U = 1 << 20, tot = (L + 2 * U) & ~(U - 1); u8 *d, *s, *sl, *dl; int sig; const char *fn = SKN[k / 2];
  int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
  signal(SIGILL, ill); signal(SIGSEGV, ill);
  ++cases; ++nontrivial;
  s = rep_map(tot, U, 'x'); d = rep_map(tot, U, 'd');
  /* private last pages: the terminator of the source, the tail of the destination */
  sl = __real_mmap((void *)((uintptr_t)(s + L) & ~(PG - 1)), PG * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  dl = __real_mmap((void *)(((uintptr_t)(d + L) & ~(PG - 1)) - PG), PG * 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  { u8 *q; for (q = sl; q < s + L; ++q) *q = 'x'; for (; q < sl + 2 * PG; ++q) *q = k / 2 < 2 ? 'x' : 0; for (q = dl; q < dl + 3 * PG; ++q) *q = 'd'; }
  SK = k; SP = s; DP = d; NN = k / 2 < 2 ? L : L;
  if (k / 2 >= 4) { /* appending: the destination is the long string, the source short */
    u8 *q; for (q = dl; q < d + L; ++q) *q = 'd'; d[L] = 0; d[L + 1] = d[L + 2] = d[L + 3] = 'q'; SP = (u8 *)"ab"; NN = 2;
  }
  { /* time limit: generous multiple of a plain byte loop over a sixteenth of the length */
    struct timespec a, b; volatile u8 *vs = s, *vd = d; size_t i; long ms;
    clock_gettime(CLOCK_MONOTONIC, &a); for (i = 0; i < L / 16; ++i) vd[i] = vs[i] == 'x' ? 'd' : 'e'; clock_gettime(CLOCK_MONOTONIC, &b);
    ms = (b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000; ms = ms * 16 * 6 / 1000 + 10; signal(SIGALRM, ill); alarm(ms > 95 ? 95 : (unsigned)ms);
  }
  jb_on = 1; if (!(sig = sigsetjmp(jb, 1))) callstr(); jb_on = 0; alarm(0);
  if (sig == SIGALRM) { failf("C19", "%s with length %zu does not come to an end", fn, L); return; }
  if (sig) { failf(sig == SIGILL ? "C20" : "C19", "%s with length %zu: signal %d", fn, L, sig); return; }
  if (k / 2 >= 4) { if (d[L] != 'a' || d[L + 1] != 'b' || d[L + 2]) failf("C19", "%s appended to a text of length %zu: text not found at its end", fn, L); return; }
  if (d[L - 1] != 'x') failf("C19", "%s of %zu bytes: byte %zu not copied", fn, L, L - 1);
  if (d[0] != 'x') failf("C19", "%s of %zu bytes: byte 0 not copied", fn, L);
  if (k / 2 == 2) { if (d[L] != 0) failf("C19", "%s of a text of %zu bytes: terminator missing", fn, L); }
  else if (d[L] != 'd') failf("C19", "%s of %zu bytes: wrote behind its end", fn, L);
}

/* ---------------- C23: rendering */
static void ref_u(char *b, unsigned long v, unsigned base) { char t[80]; int i = 0, j = 0; do { t[i++] = "0123456789abcdef"[v % base]; v /= base; } while (v); while (i) b[j++] = t[--i]; b[j] = 0; }
static void chk(const char *got, const char *exp, const char *what) { ++cases; ++nontrivial; if (strcmp(got, exp)) failf("C23", "%s rendered as '%.60s', expected '%.60s'", what, got, exp); }
static char *longarg; static int pr_mode;
static void do_pr(void *x) {
  (void)x;
  switch (pr_mode) { case 0: DUMA_Print("A%sB%d\n", longarg, 12UL); break; case 1: DUMA_Abort("A%sB%d\n", longarg, 12UL); break; case 2: DUMA_Exit("A%sB%d\n", longarg, 12UL); break;
    case 3: _duma_free((void *)0x123456789abcUL, longarg, 7); break; case 4: DUMA_Abort("%s at %s(%i)", longarg, longarg, -5); break; }
  _exit(0);
}
static void print_(int rounds) {
  static char b[200], e[200], e2[200], w[100]; int r, i; static char out[70000];
  static const unsigned long V[] = {0, 1, 9, 10, 15, 16, 99, 100, 255, 256, 4095, 4096, 2147483647UL, 2147483648UL, 4294967295UL, 4294967296UL, 9223372036854775807UL, 9223372036854775808UL, 18446744073709551615UL, 10000000000000000000UL, 9999999999999999999UL, 1000000000000UL};
  for (r = 0; r < rounds && nfail < 6; ++r) {
    unsigned long v = r < (int)(sizeof V / sizeof *V) ? V[r] : rnd() >> (rnd() % 64); long l = (long)v; int n = (int)v;
    snprintf(w, 100, "%%a of %lu", v); DUMA_sprintf(b, "%a", v); ref_u(e, v, 16); chk(b, e, w);
    snprintf(w, 100, "%%x of %lu", v); DUMA_sprintf(b, "%x", v); chk(b, e, w);
    snprintf(w, 100, "%%d of %lu", v); DUMA_sprintf(b, "%d", v); ref_u(e, v, 10); chk(b, e, w);
    snprintf(w, 100, "%%l of %ld", l); DUMA_sprintf(b, "%l", l); e2[0] = '-'; ref_u(l < 0 ? e2 + 1 : e2, l < 0 ? 0UL - (unsigned long)l : (unsigned long)l, 10); chk(b, e2, w);
    snprintf(w, 100, "%%i of %d", n); DUMA_sprintf(b, "%i", n); e2[0] = '-'; ref_u(n < 0 ? e2 + 1 : e2, n < 0 ? 0U - (unsigned)n : (unsigned)n, 10); chk(b, e2, w);
    { char c = (char)(1 + rnd() % 127); char s1[40], s2[40]; int k = rnd() % 30, j; for (j = 0; j < k; ++j) s1[j] = (char)(1 + rnd() % 255); s1[k] = 0; for (j = 0; j < 5; ++j) s2[j] = (char)(1 + rnd() % 255); s2[5] = 0;
      DUMA_sprintf(b, "x%sy%s%%%c%dz", s1, s2, c, v); snprintf(e2, 200, "x%sy%s%%%c%sz", s1, s2, c, e); chk(b, e2, "a mixed pattern"); }
  }
  DUMA_sprintf(b, "<%s>", (char *)0); chk(b, "<NULL>", "a null string");
  DUMA_sprintf(b, "%s"+2); 
  for (r = 0; r < 5; ++r)
    for (i = 0; i < 30; ++i) {
      static const int Ls[] = {0, 1, 100, 1000, 3900, 4000, 4040, 4060, 4070, 4078, 4079, 4080, 4081, 4085, 4090, 4093, 4094, 4095, 4096, 4097, 4100, 4150, 4160, 4164, 4165, 4170, 4200, 8192, 20000, 60000};
      int L = Ls[i], st, j; static char arg[60001];
      for (j = 0; j < L; ++j) arg[j] = 'a' + j % 23; arg[L] = 0; longarg = arg; pr_mode = r;
      ++cases; ++nontrivial;
      st = run_child(do_pr, 0, out, sizeof out);
      if (r == 0 || r == 2) { if (!WIFEXITED(st)) failf("C23", "formatting a text of %d characters: killed by signal %d", L, WTERMSIG(st)); }
      else if (!aborted(st, out)) failf("C23", "diagnostic with a text of %d characters: %s", L, WIFSIGNALED(st) ? "killed by another signal" : "not reported");
      if (L <= 3900 && r < 3) { static char ex[9000]; snprintf(ex, sizeof ex, "A%sB12\n", arg); if (!strstr(out, ex)) failf("C23", "text of %d characters is not rendered verbatim", L); }
      if (L <= 1900 && r == 4) { static char ex[9000]; snprintf(ex, sizeof ex, "%s at %s(-5)", arg, arg); if (!strstr(out, ex)) failf("C23", "text of %d characters is not rendered verbatim", L); }
    }
  sample("numbers at all powers and random 64-bit values in %%a %%x %%d %%i %%l; texts of 0..60000 characters through DUMA_Print, DUMA_Abort, DUMA_Exit");
}

/* ---------------- C12, C10, C11, C03, C07: single requests in children; the result comes back on stderr */
static int rq_op; static size_t rq_a, rq_b; static long rq_lim;
static void *rq_do(void) {
  void *q = &vol; int r;
  switch (rq_op) {
  case 0: return _duma_malloc(rq_a, SITE_F, 1); case 1: return malloc(rq_a); case 2: return _duma_calloc(rq_a, rq_b, SITE_F, 1); case 3: return calloc(rq_a, rq_b);
  case 4: return memalign(rq_b, rq_a); case 5: r = posix_memalign(&q, rq_b, rq_a); if (r && q && q != &vol) return (void *)1; return r ? 0 : q; case 6: return valloc(rq_a); case 7: return realloc(0, rq_a);
  case 8: return pp_new(1, rq_a); case 9: return pp_new(3, rq_a); case 10: return pp_new(5, rq_a); case 11: return pp_new(7, rq_a);
  case 12: { u8 *p = _duma_malloc(100, SITE_F, 1); size_t i; void *n; for (i = 0; i < 100; ++i) p[i] = (u8)i; mmap_max = rq_lim; n = realloc(p, rq_a); mmap_max = 0;
      if (!n) { snap(); if (!mapped_rw(p, 100)) return (void *)2; for (i = 0; i < 100; ++i) if (p[i] != i) return (void *)2; if (_duma_malloc_usable_size(p, SITE_F, 1) != 100) return (void *)2; free(p); return 0; } 
      { u8 *m = n; for (i = 0; i < 100 && i < rq_a; ++i) if (m[i] != i) return (void *)3; } return n; }
  }
  return 0;
}
static const char *RQN[] = {"malloc", "malloc", "calloc", "calloc", "memalign", "posix_memalign", "valloc", "realloc(NULL)", "new(nothrow)", "new[](nothrow)", "new(nothrow)", "new[](nothrow)", "realloc"};
static void do_rq(void *x) {
  u8 *keep; void *p; char b[100]; size_t i, n; (void)x;
  keep = _duma_malloc(1000, SITE_F, 9); _duma_g.TLS.FILL = -1;
  if ((rq_op == 2 || rq_op == 3 || rq_op == 7 || rq_op == 12) && !rq_lim) rq_lim = 1UL << 30; /* these initialise the contents: keep them small */
  for (i = 0; i < 1000; ++i) keep[i] = (u8)(i * 7);
  if (rq_op != 12 && rq_lim) mmap_max = rq_lim;
  p = rq_do();
  mmap_max = 0;
  snap();
  if (!mapped_rw(keep, 1000)) { wr(2, "KEEPBAD\n"); _exit(0); }
  for (i = 0; i < 1000; ++i) if (keep[i] != (u8)(i * 7)) { wr(2, "KEEPBAD\n"); _exit(0); }
  if (p == (void *)2) { wr(2, "OLDBAD\n"); _exit(0); }
  if (p == (void *)3) { wr(2, "COPYBAD\n"); _exit(0); }
  if (!p) {
    char *q; snap(); if (perm((uintptr_t)_duma_g.allocList) == 3) wr(2, "TABLEOPEN\n"); if (held) wr(2, "LOCKED\n");
    free(keep); q = _duma_malloc(3000, SITE_F, 10); if (!q) { wr(2, "UNUSABLE\n"); _exit(0); } q[0] = q[2999] = 1; free(q); wr(2, "NULL\n"); _exit(0); }
  n = (rq_op == 2 || rq_op == 3) ? rq_a * rq_b : rq_a;
  if ((rq_op == 2 || rq_op == 3) && rq_b && rq_a > (size_t)-1 / rq_b) { wr(2, "WRAPPED\n"); _exit(0); }
  { uintptr_t a; int bad = 0; size_t step = n > (1UL << 30) ? (n / 1000) & ~(PG - 1) : PG; if (n > (1UL << 45)) bad = 1; else for (a = (uintptr_t)p; a < (uintptr_t)p + n; a += step) if (perm(a) != 3) { bad = 1; break; }
    if (n && !bad && perm((uintptr_t)p + n - 1) != 3) bad = 1;
    snprintf(b, 100, bad ? "SHORT %p\n" : "BLOCK %p\n", p); wr(2, b); }
  if ((rq_op == 4 || rq_op == 5) && rq_b && ((uintptr_t)p & (rq_b - 1))) wr(2, "MISALIGNED\n");
  free(keep);
  _exit(0);
}
static void request(int op, size_t a, size_t b, long lim, int failexit) {
  int st; char w[160];
  rq_op = op; rq_a = a; rq_b = b; rq_lim = lim; ++cases; ++nontrivial;
  snprintf(w, 160, "%s(size=%zu%s%zu%s)", RQN[op], a, op == 2 || op == 3 ? " times " : op == 4 || op == 5 ? ", alignment " : ", ", b, lim ? ", system refuses large requests" : "");
  st = run_child(do_rq, 0, cout_, sizeof cout_);
  if (has(cout_, "KEEPBAD")) { failf("C12", "%s damaged another block", w); failf("C04", "%s damaged another block", w); }
  else if (has(cout_, "OLDBAD")) failf("C10", "%s failed and lost the old block", w);
  else if (has(cout_, "COPYBAD")) failf("C10", "%s did not preserve the contents", w);
  else if (has(cout_, "WRAPPED")) failf("C12", "%s: overflowing product returned a block", w);
  else if (has(cout_, "SHORT")) failf("C12", "%s returned a block that does not have all its bytes", w);
  else if (has(cout_, "UNUSABLE")) failf("C12", "%s left the allocator unusable", w);
  else if (has(cout_, "TABLEOPEN")) failf("C13", "%s failed and left the block table accessible", w);
  else if (has(cout_, "LOCKED")) failf("C14", "%s failed and left the lock held", w);
  else if (has(cout_, "MISALIGNED")) failf("C03", "%s is not aligned", w);
  else if (has(cout_, "BLOCK") || has(cout_, "NULL\n")) {
    if (has(cout_, "NULL\n") && failexit && op < 8) failf("C12", "%s returned NULL although exit on failure is set", w);
  } else if (aborted(st, cout_)) { if (!failexit || (op >= 8 && op <= 11)) failf("C12", "%s terminated although exit on failure does not apply: %s", w, how(st)); }
  else failf("C12", "%s: %s", w, how(st));
}
static void sizes(void) {
  size_t M = (size_t)-1, i; int op, fx = envi("DUMA_MALLOC_FAILEXIT", 1) != 0;
  static const size_t H[] = {0, 1, 2, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 12288, 1 << 20, (1 << 20) + 4096};
  for (i = 0; i < sizeof H / sizeof *H && nfail < 6; ++i) for (op = 0; op <= 11; ++op) { if (op == 2 || op == 3) continue; request(op, M - H[i], op == 4 || op == 5 ? (size_t)16 << (rnd() % 20) : 0, 0, fx); }
  for (op = 0; op <= 11 && nfail < 6; ++op) { size_t S[] = {(size_t)1 << 31, ((size_t)1 << 32) - 4096, (size_t)1 << 32, ((size_t)1 << 32) + 100, ((size_t)1 << 33) + 5, (size_t)1 << 46, (size_t)1 << 47, (size_t)1 << 48, (size_t)1 << 62, (size_t)1 << 63}; if (op == 2 || op == 3) continue; for (i = 0; i < 10; ++i) request(op, S[i], op == 4 || op == 5 ? 64 : 0, 0, fx); }
  { size_t P[][2] = {{(size_t)1 << 32, (size_t)1 << 32}, {((size_t)1 << 32) + 1, (size_t)1 << 32}, {(size_t)1 << 63, 2}, {((size_t)1 << 63) + 1, 2}, {3, M / 3 + 1}, {M, M}, {M, 2}, {2, M}, {65536, ((size_t)1 << 48) + 1}, {M / 3 + 2, 3}, {M, 1}, {1, M}, {((size_t)1 << 61) + 1, 8}, {8, ((size_t)1 << 61) + 12}};
    for (i = 0; i < sizeof P / sizeof *P && nfail < 6; ++i) { request(2, P[i][0], P[i][1], 0, fx); request(3, P[i][0], P[i][1], 0, fx); } }
  for (i = 33; i < 64 && nfail < 6; ++i) { size_t e = (size_t)1 << (i % 5 * 3 + 4), k = ((size_t)1 << i) / e + 1 + i % 3; request(2, k, e, 0, fx); request(2, e, k, 0, fx); if (i % 4 == 0) { request(3, k, e, 0, fx); request(3, e, k, 0, fx); } }
  for (op = 0; op <= 12 && nfail < 6; ++op) for (i = 0; i < 4; ++i) request(op, ((size_t)3 << 20) + (i << 12) - i, op == 4 || op == 5 ? 4096 << i : 1, 1 << 20, fx);
  for (i = 0; i < 8 && nfail < 6; ++i) { request(4, 100, (size_t)1 << (i < 3 ? 20 + 4 * i : 45 + 2 * i), 0, fx); request(5, 100 + i, (size_t)1 << (i < 3 ? 21 + 3 * i : 46 + 2 * i), 0, fx); /* in between the fill of the alignment gap takes gigabytes */ request(12, (size_t)1 << (40 + 3 * i), 0, 0, fx); request(12, M - i * 4096, 0, 0, fx); }
  sample("sizes at 2^31, 2^32, 2^47, 2^48, 2^63 and SIZE_MAX-k, overflowing calloc products, large alignments, refused system calls; exit on failure %d", fx);
}
/* bad alignments */
static void do_al(void *x) { void *p; (void)x; if (rq_op == 4) p = memalign(rq_b, rq_a); else if (rq_op == 13) p = _duma_memalign(rq_b, rq_a, SITE_F, 1); else { int r; void *q = (void *)0x1234; r = rq_op == 5 ? posix_memalign(&q, rq_b, rq_a) : _duma_posix_memalign(&q, rq_b, rq_a, SITE_F, 1); if (r == EINVAL && q == (void *)0x1234) wr(2, "EINVAL\n"); else if (r == EINVAL) wr(2, "TOUCHED\n"); else wr(2, "OTHER\n"); _exit(0); } { char b[60]; snprintf(b, 60, "GOT %p\n", p); wr(2, b); } _exit(0); }
static void aligns(void) {
  int i; 
  for (i = 0; i < 120 && nfail < 6; ++i) {
    size_t al = i < 40 ? 3 + i : i < 60 ? ((size_t)1 << (i + 2)) + 1 : i < 80 ? ((size_t)3 << (i - 30)) : i < 95 ? ((size_t)1 << 63) + ((size_t)1 << (rnd() % 62)) : ((size_t)1 << (32 + rnd() % 31)) | ((size_t)1 << (rnd() % 32)) ; int st, j;
    if (!(al & (al - 1))) continue;
    for (j = 0; j < 4; ++j) { rq_op = j == 0 ? 4 : j == 1 ? 13 : j == 2 ? 5 : 14; rq_a = 1 + rnd() % 5000; rq_b = al; ++cases; ++nontrivial;
      st = run_child(do_al, 0, cout_, sizeof cout_);
      if (j < 2) { if (!aborted(st, cout_)) failf("C03", "memalign with alignment %zu was not refused: %s", al, how(st)); }
      else if (!has(cout_, "EINVAL")) failf("C03", "posix_memalign with alignment %zu: %s", al, how(st)); }
  }
  for (i = 0; i < 5; ++i) { static const size_t B[] = {0, 1, 2, 4, 7}; int st; rq_op = 5; rq_a = i % 2 ? 0 : 30; rq_b = B[i]; ++cases; st = run_child(do_al, 0, cout_, sizeof cout_); if (!has(cout_, "EINVAL")) failf("C03", "posix_memalign with alignment %zu: %s", B[i], how(st)); }
  sample("alignments 3..42, 2^k+1, 3*2^k, 2^i+2^j through memalign and posix_memalign");
}
/* zero-size with strategy 0, C++ zero */
static void do_zero(void *x) { void *p; (void)x; rq_a = 0; rq_b = 64; p = rq_op == 13 ? _duma_strdup("", SITE_F, 1) : rq_do(); { char b[60]; snprintf(b, 60, "GOT %p\n", p); wr(2, b); } _exit(0); }
static void zero(void) {
  int op, st;
  for (op = 0; op <= 11; ++op) {
    int s = op >= 8 ? opt_n0 : opt_m0; rq_op = op; ++cases; ++nontrivial; rq_lim = 0;
    st = run_child(do_zero, 0, cout_, sizeof cout_);
    if (s == 0) { if (!aborted(st, cout_)) failf("C11", "%s(0) with strategy 0 was not diagnosed: %s", RQN[op], how(st)); }
    else if (!has(cout_, "GOT")) failf("C11", "%s(0) with strategy %d: %s", RQN[op], s, how(st));
    else if (s == 1 && !has(cout_, "(nil)")) failf("C11", "%s(0) with strategy 1: %s", RQN[op], how(st));
    else if (s >= 2 && has(cout_, "(nil)")) failf("C11", "%s(0) with strategy %d returned NULL", RQN[op], s);
  }
  sample("12 entry points with size 0, malloc strategy %d, new strategy %d", opt_m0, opt_n0);
}
/* ---------------- C08: check frequency */
static int cf_pos, cf_kind, cf_pre;
static void do_cf(void *x) {
  static u8 *v[400], *w[400]; int i, n = envi("DUMA_CHECK_FREQ", 0), m = n + 2 < 390 ? n + 2 : 390; u8 *t, *u; (void)x;
  t = _duma_malloc(10, SITE_F, 1);
  for (i = 0; i < cf_pre; ++i) v[i] = _duma_malloc(10 + i, SITE_F, 2);
  for (i = 0; i < cf_pre; ++i) if (i % 3 == 0) free(v[i]), v[i] = 0;
  if (cf_pos >= 2) for (i = 0; i < m; ++i) w[i] = _duma_malloc(20 + i, SITE_F, 4);
  if (cf_kind == 0) t[-1] ^= 0x11; else { u = memalign(64, 10); u[13] ^= 0x40; }
  for (i = 0; i < n + 1; ++i) {
    if (cf_pos >= 2 && i < m && (cf_pos == 2 || (i & 1))) free(w[i]);
    else if ((i + cf_pos) & 1) v[200] = pp_new(0, 12);
    else { void *p = _duma_malloc(5, SITE_F, 3); v[201] = p; }
  }
  wr(2, "SURVIVED\n"); _exit(0);
}
static void checkfreq(void) {
  int n = envi("DUMA_CHECK_FREQ", 0), st;
  if (n <= 0) return;
  for (cf_pre = 0; cf_pre < 12; ++cf_pre) for (cf_pos = 0; cf_pos < 4; ++cf_pos) for (cf_kind = 0; cf_kind < 2; ++cf_kind) {
    ++cases; ++nontrivial;
    st = run_child(do_cf, 0, cout_, sizeof cout_);
    if (!aborted(st, cout_)) failf("C08", "check frequency %d: %d operations after damaging a block's surroundings none was diagnosed (%d operations before): %s", n, n + 1, cf_pre, how(st));
  }
}
static void do_cfok(void *x) { int i; void *v[50]; (void)x; for (i = 0; i < 50; ++i) v[i] = i % 2 ? _duma_malloc(i, SITE_F, 1) : memalign(128, 3 * i + 1); for (i = 0; i < 50; ++i) free(v[i]); _exit(0); }
/* ---------------- C15: the lock */
static pthread_mutex_t tm = PTHREAD_MUTEX_INITIALIZER;
static volatile int t_in, t_state;
static void *th_try(void *x) { (void)x; t_state = 1; DUMA_get_sem(); t_in = 1; DUMA_rel_sem(0); t_state = 2; return 0; }
static void do_lock1(void *x) {
  int n = rq_a, i; pthread_t t; (void)x;
  for (i = 0; i < n; ++i) DUMA_get_sem();
  t_in = 0; pthread_create(&t, 0, th_try, 0);
  for (i = 0; i < n; ++i) { usleep(i < 3 || i > n - 3 ? 4000 : 200); if (t_in) { wr(2, "ENTERED\n"); _exit(0); } if (DUMA_rel_sem(7) != 7) wr(2, "RETVAL\n"); }
  for (i = 0; i < 1000 && t_state != 2; ++i) usleep(1000);
  if (t_state != 2) { wr(2, "STUCK\n"); _exit(0); }
  pthread_join(t, 0);
  DUMA_get_sem(); DUMA_get_sem(); DUMA_rel_sem(0); DUMA_rel_sem(0);
  wr(2, "FINE\n"); _exit(0);
}
static void do_lock2(void *x) { int i; (void)x; for (i = 0; i < (int)rq_a; ++i) DUMA_get_sem(); for (i = 0; i < (int)rq_a; ++i) DUMA_rel_sem(0); wr(2, "PAIRED\n"); DUMA_rel_sem(0); wr(2, "RELEASED\n"); _exit(0); }
static volatile long ctr, busy, viol;
static void *th_cnt(void *x) { int i, j, d; unsigned r = (unsigned)(uintptr_t)x; for (i = 0; i < 3000; ++i) { r = r * 1103515245 + 12345; d = 1 + (r >> 16) % 3; for (j = 0; j < d; ++j) DUMA_get_sem(); if (busy) viol = 1; busy = 1; { long c = ctr; if ((r >> 20) % 8 == 0) sched_yield(); ctr = c + 1; } busy = 0; for (j = 0; j < d; ++j) { DUMA_rel_sem(0); } } return 0; }
static void do_lock3(void *x) { pthread_t t[4]; long i; (void)x; for (i = 0; i < 4; ++i) pthread_create(&t[i], 0, th_cnt, (void *)(i + 77 + rq_a)); for (i = 0; i < 4; ++i) pthread_join(t[i], 0); if (ctr != 12000 || viol) { wr(2, "RACE\n"); _exit(0); } wr(2, "FINE\n"); _exit(0); }
static void *th_use(void *x) { int i; unsigned r = (unsigned)(uintptr_t)x; void *v[16] = {0}; for (i = 0; i < 400; ++i) { int k; r = r * 1103515245 + 12345; k = (r >> 16) % 16; switch ((r >> 24) % 5) { case 0: case 1: if (!v[k]) v[k] = malloc(1 + (r >> 8) % 9000); break; case 2: free(v[k]); v[k] = 0; break; case 3: v[k] = realloc(v[k], 1 + (r >> 8) % 5000); break; case 4: if (v[k]) { _duma_malloc_usable_size(v[k], SITE_F, 1); duma_check(v[k]); } break; } } for (i = 0; i < 16; ++i) free(v[i]); return 0; }
static void do_thr(void *x) { pthread_t t[6]; long i; int fd; (void)x; for (i = 0; i < 6; ++i) pthread_create(&t[i], 0, th_use, (void *)(i * 31 + rq_a)); fd = dup(2); for (i = 0; i < 6; ++i) pthread_join(t[i], 0); snap(); if (perm((uintptr_t)_duma_g.allocList) == 3) wr(fd, "TABLEOPEN\n"); wr(fd, "FINE\n"); _exit(0); }
static void locks(int rounds) {
  int i, st;
  for (i = 0; i < 8; ++i) { rq_a = i < 5 ? 1 + i : i * 37; ++cases; ++nontrivial; st = run_child(do_lock1, 0, cout_, sizeof cout_);
    if (!has(cout_, "FINE") || has(cout_, "RETVAL")) failf("C15", "lock taken %zu times: %s", rq_a, how(st)); }
  for (i = 0; i < 4; ++i) { rq_a = i; ++cases; ++nontrivial; st = run_child(do_lock2, 0, cout_, sizeof cout_); if (!has(cout_, "PAIRED") || has(cout_, "RELEASED") || !aborted(st, cout_)) failf("C15", "after %d acquisitions and releases one more release: %s", i, how(st)); }
  for (i = 0; i < rounds; ++i) { rq_a = rnd() % 1000; ++cases; ++nontrivial; st = run_child(do_lock3, 0, cout_, sizeof cout_); if (!has(cout_, "FINE")) failf("C15", "4 threads with nested acquisition: %s", how(st)); }
  for (i = 0; i < rounds; ++i) { rq_a = rnd() % 1000; ++cases; ++nontrivial; st = run_child(do_thr, 0, cout_, sizeof cout_); if (!has(cout_, "FINE")) { failf("C14", "6 threads using the allocator: %s", how(st)); failf("C07", "6 threads using the allocator: %s", how(st)); } else if (has(cout_, "TABLEOPEN")) failf("C13", "block table open after 6 threads used the allocator"); }
  sample("nested acquisition 1..250, waiting thread probed after each release; 4 threads x 3000 nested critical sections; 6 threads x 400 allocator calls");
}
/* every entry point while another thread holds the lock: it must not touch the table */
static volatile int e_done; static int e_op; static void *e_ptr;
static void *th_entry(void *x) { (void)x;
  switch (e_op) { case 0: malloc(10); break; case 1: free(e_ptr); break; case 2: realloc(e_ptr, 20); break; case 3: duma_check(e_ptr); break; case 4: duma_checkAll(); break; case 5: _duma_malloc_usable_size(e_ptr, SITE_F, 1); break; case 6: DUMA_delFrame(); break; case 7: pp_new(0, 7); break; case 8: memalign(64, 10); break; case 9: calloc(3, 4); break; case 10: valloc(5); break; case 11: strdup("abc"); break; case 12: malloc(0); break; case 13: { void *q; posix_memalign(&q, 16, 10); break; } case 14: realloc(0, 11); break; case 15: realloc(e_ptr, 0); break; }
  e_done = 1; return 0; }
static void do_entry(void *x) { pthread_t t; int i; (void)x; e_ptr = _duma_malloc(30, SITE_F, 1); DUMA_get_sem(); unprot_nolock = 0; watch_lock = 1; pthread_create(&t, 0, th_entry, 0); for (i = 0; i < 30; ++i) { usleep(1000); if (e_done) { wr(2, "NOLOCK\n"); _exit(0); } if (unprot_nolock) { wr(2, "UNPROT\n"); _exit(0); } snap(); if (perm((uintptr_t)_duma_g.allocList) == 3) { wr(2, "OPENED\n"); _exit(0); } } DUMA_rel_sem(0); for (i = 0; i < 3000 && !e_done; ++i) usleep(1000); if (!e_done) { wr(2, "STUCK\n"); _exit(0); } if (held) wr(2, "HELD\n"); wr(2, "FINE\n"); _exit(0); }
static void entries(void) { static const char *N[] = {"malloc", "free", "realloc", "duma_check", "duma_checkAll", "malloc_usable_size", "DUMA_delFrame", "operator new", "memalign", "calloc", "valloc", "strdup", "malloc(0)", "posix_memalign", "realloc(NULL)", "realloc(,0)"}; int st;
  for (e_op = 0; e_op < 16; ++e_op) { if (e_op == 12 && opt_m0 != 3) continue; ++cases; ++nontrivial; st = run_child(do_entry, 0, cout_, sizeof cout_); if (!has(cout_, "FINE") || has(cout_, "HELD")) failf("C14", "%s while another thread holds the lock: %s", N[e_op], how(st)); }
  sample("16 entry points called while another thread holds the lock"); }
/* ---------------- C16: budget and accounting */
static void budget_check(const char *why) {
  long tr, ac; if (!wb_tracked) return;
  tr = wb_tracked(); ac = wb_true();
  if (tr != ac) failf("C16", "%s: tracked protected memory %ld kB, really retained %ld kB", why, tr, ac);
  if (opt_pf > 0 && ac > opt_pf) failf("C16", "%s: %ld kB retained, budget is %ld kB", why, ac, opt_pf);
  if (opt_pf == 0 && ac) failf("C16", "%s: %ld kB retained although nothing may be", why, ac);
  ++nontrivial;
}
static void budget(int nops) {
  int i; static void *v[300]; static size_t sz[300];
  for (i = 0; i < nops && nfail < 6; ++i) {
    int k = rnd() % 300; char w[80]; ++cases;
    switch (rnd() % 8) {
    case 0: case 1: case 2: if (!v[k]) { sz[k] = rnd() % 5 ? rnd() % 9000 : rnd() % (opt_pf > 0 ? (size_t)opt_pf * 2048 : 100000); if (rnd() % 12 == 0) sz[k] = 0; v[k] = rnd() & 1 ? _duma_malloc(sz[k], SITE_F, 1) : memalign((size_t)1 << (rnd() % 14), sz[k]); if (v[k] == _duma_g.null_addr) v[k] = 0; } snprintf(w, 80, "operation %d, malloc(%zu)", i, sz[k]); break;
    case 3: v[k] = realloc(v[k], sz[k] = 1 + rnd() % 20000); snprintf(w, 80, "operation %d, realloc(%zu)", i, sz[k]); break;
    case 4: { long f = rnd() % 3 == 0; int j; if (f) mmap_max = 4096; { void *p = 0; if (envi("DUMA_MALLOC_FAILEXIT", 1) == 0) p = malloc((size_t)2 << 20); mmap_max = 0; free(p); } (void)j; snprintf(w, 80, "operation %d, large malloc%s", i, f ? " refused by the system" : ""); break; }
    default: if (v[k]) { free(v[k]); v[k] = 0; } snprintf(w, 80, "operation %d, free(%zu bytes)", i, sz[k]); break;
    }
    budget_check(w);
  }
  sample("%d random allocations, frees, reallocations with budget %ld kB, tracked total compared with the block table after each", nops, opt_pf);
}
/* ---------------- C25: first use of each entry point, in a fresh process before the constructor ran is not possible
 * with a linked constructor; the recursive cases are driven by calling _duma_init again */
static void inv_check(const char *why) {
  unsigned long v[7], i, tab = 0, sz; static unsigned long R[20000][2]; unsigned long n = 0, j;
  if (!wb_slot) return;
  sz = wb_tablesize(); ++cases; ++nontrivial;
  for (i = 0; wb_slot(i, v); ++i) {
    if (v[0] > 4) { failf("C25", "%s: slot %lu has state %lu", why, i, v[0]); return; }
    if (v[0] == 0) { if (v[2] | v[3] | v[4] | v[5]) failf("C25", "%s: empty slot %lu describes memory", why, i); continue; }
    if (v[2] == (unsigned long)_duma_g.allocList) { ++tab; if (v[0] != 2 || v[1] != 0 || v[4] != v[2] || v[5] != sz) failf("C25", "%s: the slot of the block table does not describe it", why); }
    if (v[2] & (PG - 1) || v[3] & (PG - 1) || !v[3]) failf("C25", "%s: slot %lu covers %#lx+%#lx", why, i, v[2], v[3]);
    if (n < 20000) { R[n][0] = v[2]; R[n][1] = v[3]; ++n; }
  }
  if (i * 64 != sz && i * sizeof(void *) > sz) failf("C25", "%s: %lu slots in a table of %lu bytes", why, i, sz);
  if (tab != 1) failf("C25", "%s: %lu slots describe the block table", why, tab);
  for (i = 0; i < n; ++i) for (j = 0; j < i; ++j) if (R[i][0] < R[j][0] + R[j][1] && R[j][0] < R[i][0] + R[i][1]) { failf("C25", "%s: two slots describe overlapping memory %#lx and %#lx", why, R[i][0], R[j][0]); failf("C04", "%s: two slots describe overlapping memory", why); return; }
  snap();
  for (i = 0; i < n; ++i) for (j = R[i][0]; j < R[i][0] + R[i][1]; j += PG) if (!perm(j)) { failf("C25", "%s: a slot describes memory %#lx that is not mapped", why, j); return; }
  if (perm((uintptr_t)_duma_g.null_addr) != 1 || perm((uintptr_t)_duma_g.null_addr - 1) != 1) { failf("C25", "%s: the shared zero-size address is accessible or unmapped", why); failf("C11", "%s: the shared zero-size address is accessible or unmapped", why); }
  check_table(why);
}
static const char *st_env[3]; 
static void do_start(void *x) { int i; char *av[] = {(char *)"exer", (char *)"nop", 0}; (void)x; for (i = 0; i < 3; ++i) if (st_env[i]) putenv((char *)st_env[i]); execv("/proc/self/exe", av); _exit(77); }
static void starts(void) {
  static const char *const PGS[] = {"EXER_PAGE=4096", "EXER_PAGE=8192", "EXER_PAGE=2048", "EXER_PAGE=16384", "EXER_PAGE=65536", "EXER_PAGE=1024", "EXER_PAGE=4097", "EXER_PAGE=1"}; int i, j, st;
  for (i = 0; i < 8; ++i) { st_env[0] = PGS[i]; st_env[1] = 0; ++cases; ++nontrivial; st = run_child(do_start, 0, cout_, sizeof cout_);
    if (i ? !aborted(st, cout_) : !(WIFEXITED(st) && !WEXITSTATUS(st))) failf("C25", "program start with %s: %s", PGS[i] + 5, how(st)); }
  for (i = 1; i < 3; ++i) for (j = 0; j < 2; ++j) { static const char *const F[] = {"EXER_REFUSE=1", "EXER_REFUSE=2"}; int ok; st_env[0] = F[i - 1]; st_env[1] = j ? "EXER_REFUSALS=1000000" : "EXER_REFUSALS=1"; ++cases; ++nontrivial;
    st = run_child(do_start, 0, cout_, sizeof cout_); ok = WIFEXITED(st) && !WEXITSTATUS(st);
    if (!(j == 0 && ok) && !((aborted(st, cout_) || (WIFEXITED(st) && WEXITSTATUS(st) && WEXITSTATUS(st) != 77 && (has(cout_, "DUMA") || has(cout_, "mmap")))))) failf("C25", "program start while the system refuses mapping %d%s: %s", i, j ? " and all others" : " once", how(st)); }
}
static void init_(void) {
  void *t = _duma_g.allocList, *n = _duma_g.null_addr; u8 *p; int i;
  inv_check("at program start");
  starts();
  _duma_init();
  if (_duma_g.allocList != t || _duma_g.null_addr != n) failf("C25", "a second initialisation set up the table again");
  inv_check("after a second initialisation");
  p = _duma_malloc(100, SITE_F, 1);
  for (i = 0; i < 5; ++i) { _duma_init(); if (_duma_malloc_usable_size(p, SITE_F, 1) != 100) failf("C25", "block lost by re-initialisation"); }
  free(p);
  inv_check("after re-initialisation with live blocks");
  for (i = 0; i < 300; ++i) { p = _duma_malloc(rnd() % 6000, SITE_F, 1); if (i % 3 == 0) free(p); if (i % 50 == 0) inv_check("in a growing table"); }
  inv_check("at the end");
  sample("program start, repeated initialisation, table growth: every slot, region and page compared");
}
/* ---------------- C12: histories during which the system refuses mappings (exit on failure off) */
static int oom_mode; static int oom_pred(void) { return oom_mode == 2 || (oom_mode == 1 && rnd() % 2); }
static void oom(int nops) {
  int i; watch_lock = 1; mmap_pred = oom_pred; opt_pf = 0;   /* forced reclaiming is allowed */
  for (i = 0; i < nops && nfail < 6; ++i) {
    int c = rnd() % 10; size_t n = rnd() % 5 ? rnd() % 3000 : rsize(); char why[80]; u8 *p;
    if (i % 100 == 0) oom_mode = rnd() % 3;
    if (i > nops / 2 && i < nops * 3 / 4) oom_mode = 2;
    if (c < 6) {
      int k = rnd() % 4; ++cases; snprintf(why, 80, "operation %d, allocation %d of %zu bytes, refusals %d", i, k, n, oom_mode);
      if (nlive > 3000 || !n) continue;
      p = k == 0 ? _duma_malloc(n, SITE_F, 1) : k == 1 ? memalign(64, n) : k == 2 ? pp_new(1, n) : calloc(1, n);
      check_table(why);
      if (!p) { ++nontrivial; if (!oom_mode) failf("C07", "%s: failed although memory is available", why); continue; }
      if (!mapped_rw(p, n)) { failf("C12", "%s: block %p is not accessible", why, p); return; }
      addblk(p, n, k == 1 ? 64 : def_align(n), k == 2 ? 1 : 0, 1, why);
    } else if (c < 7) op_free();
    else if (nlive) { /* realloc under refusal */
      int j = rnd() % nlive; Blk *b = &B[live_idx[j]]; size_t m; if (b->fam || !b->n || !n) continue; m = b->n < n ? b->n : n; ++cases;
      snprintf(why, 80, "operation %d, realloc(%zu -> %zu), refusals %d", i, b->n, n, oom_mode);
      p = realloc(b->p, n); check_table(why);
      if (!p) { size_t z; ++nontrivial; if (!mapped_rw(b->p, b->n)) { failf("C10", "%s returned NULL and the old block is gone", why); return; } for (z = 0; z < b->n; ++z) if (b->p[z] != pat(b->seed, z)) { failf("C10", "%s returned NULL and changed the old block", why); return; } continue; }
      { size_t z; for (z = 0; z < m; ++z) if (p[z] != pat(b->seed, z)) { failf("C10", "%s: byte %zu not preserved", why, z); return; } }
      live_idx[j] = live_idx[--nlive]; b->live = 0; addblk(p, n, def_align(n), 0, 1, why);
    }
  }
  mmap_pred = 0; final_check();
  /* the table cannot grow any more while small remainders of regions are still free */
  for (i = 0; i < 150 && nfail < 6; ++i) { size_t n = (1 << 20) - (3 + rnd() % 3) * PG; u8 *p = malloc(n); if (p) { snap(); addblk(p, n, def_align(n), 0, 1, "large block"); } }
  oom_mode = 2; mmap_pred = oom_pred; curop = "small allocations while the system refuses memory";
  { size_t z; for (z = 200; z >= 5; z = z * 3 / 4) while (malloc(z * PG)) ++cases; }
  for (i = 0; i < 700 && nfail < 6; ++i) { u8 *p = malloc(1 + rnd() % 4096); ++cases; if (p) ++nontrivial; check_table("exhaustion"); }
  mmap_pred = 0; final_check();
  sample("%d operations, the system refusing mappings in phases", nops);
}
/* ---------------- C18: every pair of an allocating and a releasing function, member forms included */
static int fa_a, fa_d;
static void do_fam(void *x) {
  void *p; (void)x;
  signal(SIGILL, on_ill);
  { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGILL); sigprocmask(SIG_UNBLOCK, &s, 0); }
  p = _duma_allocate(0, 40, 0, 0, 1, (enum _DUMA_Allocator)fa_a, DUMA_FAIL_ENV, SITE_F, 5);
  if (!p) { wr(2, "NOBLOCK\n"); _exit(3); }
  wr(2, "ALLOCATED\n");
  _duma_deallocate(p, 1, (enum _DUMA_Allocator)fa_d, SITE_F, 6);
  _exit(0);
}
static int famof(int e) { return e < EFA_NEW_ELEM ? 0 : (e - EFA_NEW_ELEM) / 2 + 1; }
static void families_(void) {
  static const int A[] = {EFA_MALLOC, EFA_CALLOC, EFA_MEMALIGN, EFA_POSIX_MEMALIGN, EFA_REALLOC, EFA_VALLOC, EFA_STRDUP, EFA_NEW_ELEM, EFA_NEW_ARRAY, EFA_MEMBER_NEW_ELEM, EFA_MEMBER_NEW_ARRAY};
  static const int D[] = {EFA_FREE, EFA_REALLOC, EFA_DEL_ELEM, EFA_DEL_ARRAY, EFA_MEMBER_DEL_ELEM, EFA_MEMBER_DEL_ARRAY};
  unsigned i, j; int st;
  for (i = 0; i < sizeof A / sizeof *A; ++i) for (j = 0; j < sizeof D / sizeof *D; ++j) {
    fa_a = A[i]; fa_d = D[j]; ++cases; ++nontrivial;
    st = run_child(do_fam, 0, cout_, sizeof cout_);
    if (!has(cout_, "ALLOCATED")) failf("C18", "allocation as allocator %d: %s", fa_a, how(st));
    else if (famof(fa_a) == famof(fa_d)) { if (!(WIFEXITED(st) && !WEXITSTATUS(st))) failf("C18", "release as %d of a block allocated as %d (same family): %s", fa_d, fa_a, how(st)); }
    else if (!aborted(st, cout_)) failf("C18", "release as %d of a block allocated as %d (another family) was not diagnosed: %s", fa_d, fa_a, how(st));
  }
  sample("11 allocating x 6 releasing functions, member forms included");
}
static int scen(const char *m, int ac, char **av) {
  static const char *const MP[][2] = {{"strings", "C19"}, {"print", "C23"}, {"sizes", "C12"}, {"aligns", "C03"}, {"zero", "C11"}, {"checkfreq", "C08"}, {"locks", "C15"}, {"entries", "C14"}, {"budget", "C16 C07"}, {"oom", "C12"}, {"init", "C25"}, {"families", "C18"}, {0, 0}};
  { int i; for (i = 0; MP[i][0]; ++i) if (!strcmp(m, MP[i][0])) { curop = m; curprops = MP[i][1]; } }
  int a3 = ac > 3 ? atoi(av[3]) : 0;
  if (!strcmp(m, "strings")) { strings(a3 ? a3 : 400); return 1; }
  if (!strcmp(m, "bigstr")) { bigstr(a3, strtoull(av[4], 0, 0)); return 1; }
  if (!strcmp(m, "print")) { print_(a3 ? a3 : 300); return 1; }
  if (!strcmp(m, "sizes")) { sizes(); return 1; }
  if (!strcmp(m, "aligns")) { aligns(); return 1; }
  if (!strcmp(m, "zero")) { zero(); return 1; }
  if (!strcmp(m, "checkfreq")) { int st; checkfreq(); st = run_child(do_cfok, 0, cout_, sizeof cout_); if (!(WIFEXITED(st) && !WEXITSTATUS(st))) { failf("C07", "undamaged blocks: %s", how(st)); failf("C08", "undamaged blocks: %s", how(st)); } sample("check frequency %d, damage followed by one operation more than the frequency", envi("DUMA_CHECK_FREQ", 0)); return 1; }
  if (!strcmp(m, "locks")) { locks(a3 ? a3 : 3); return 1; }
  if (!strcmp(m, "entries")) { entries(); return 1; }
  if (!strcmp(m, "budget")) { budget(a3 ? a3 : 3000); return 1; }
  if (!strcmp(m, "oom")) { oom(a3 ? a3 : 1000); return 1; }
  if (!strcmp(m, "nop")) { int i; for (i = 0; i < 20; ++i) free(malloc(i * 300)); _exit(0); }
  if (!strcmp(m, "families")) { families_(); return 1; }
  if (!strcmp(m, "init")) { init_(); return 1; }
  if (!strcmp(m, "options")) { static char b[2000]; if (wb_options) { wb_options(b, 2000); wr(outfd, "OPTIONS "); wr(outfd, b); wr(outfd, "\n"); ++cases; ++nontrivial; } return 1; }
  return 0;
}
