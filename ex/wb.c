/* white-box unit: duma.c itself plus read-only accessors (used only when it compiles) */
#include "src/duma.c"
long wb_tracked(void) { return _duma_s.sumProtectedMem; }
static int wb_open(void) { int i = Page_Size() == 0; Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize); return i; }
static void wb_close(void) { Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize); }
long wb_true(void) {
  size_t i; long s = 0; wb_open();
  for (i = 0; i < _duma_s.slotCount; ++i) {
    struct _DUMA_Slot *p = _duma_g.allocList + i;
    if (p->state == DUMAST_ALL_PROTECTED || p->state == DUMAST_BEGIN_PROTECTED) s += (p->internalSize + 1023) >> 10;
  }
  wb_close(); return s;
}
/* the table as DUMA sees it: state, allocator, addresses, sizes */
int wb_slot(unsigned long i, unsigned long *v) {
  struct _DUMA_Slot *p;
  if (i >= _duma_s.slotCount) return 0;
  wb_open(); p = _duma_g.allocList + i;
  v[0] = p->state; v[1] = p->allocator; v[2] = (unsigned long)p->internalAddress; v[3] = p->internalSize;
  v[4] = (unsigned long)p->userAddress; v[5] = p->userSize; v[6] = (unsigned long)p->protAddress;
  wb_close(); return 1;
}
unsigned long wb_tablesize(void) { return _duma_s.allocListSize; }
unsigned long wb_null_block(void) { return (unsigned long)_duma_s.null_block; }
int wb_options(char *b, int n) {
  extern int snprintf(char *, size_t, const char *, ...);
  return snprintf(b, n, "ALIGNMENT=%ld PROTECT_BELOW=%d REPORT_ALL_LEAKS=%d PROTECT_FREE=%ld MAX_ALLOC=%ld MALLOC_0_STRATEGY=%d NEW_0_STRATEGY=%d MALLOC_FAILEXIT=%d FREE_ACCESS=%d FILL=%d SLACKFILL=%d SHOW_ALLOC=%d SUPPRESS_ATEXIT=%d MEMCPY_OVERLAP=%d SKIPCOUNT_INIT=%d CHECK_FREQ=%d DISABLE_BANNER=%d OUTPUT_STDOUT=%d OUTPUT_STDERR=%d OUTPUT_DEBUG=%d OUTPUT_STACKTRACE=%d OUTPUT_FILE=%s OUTPUT_STACKTRACE_MAPFILE=%s",
    (long)_duma_g.TLS.ALIGNMENT, _duma_g.TLS.PROTECT_BELOW, _duma_s.REPORT_ALL_LEAKS, _duma_s.PROTECT_FREE, _duma_s.MAX_ALLOC, _duma_s.MALLOC_0_STRATEGY, _duma_s.NEW_0_STRATEGY, _duma_s.MALLOC_FAILEXIT, _duma_s.FREE_ACCESS, _duma_g.TLS.FILL, _duma_s.SLACKFILL, _duma_s.SHOW_ALLOC, _duma_s.SUPPRESS_ATEXIT, _duma_s.MEMCPY_OVERLAP, _duma_s.SKIPCOUNT_INIT, _duma_s.CHECK_FREQ, _duma_s.DISABLE_BANNER, DUMA_OUTPUT_STDOUT, DUMA_OUTPUT_STDERR, DUMA_OUTPUT_DEBUG, DUMA_OUTPUT_STACKTRACE, DUMA_OUTPUT_FILE ? DUMA_OUTPUT_FILE : "(null)", DUMA_OUTPUT_STACKTRACE_MAPFILE ? DUMA_OUTPUT_STACKTRACE_MAPFILE : "(null)");
}
