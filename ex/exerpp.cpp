#include <new>
#include <cstddef>
#define DUMA_SKIP_SETUP
#include "dumapp.h"
#undef new
#undef delete
#undef NEW_ELEM
#include "exer.h"
struct MyExc : std::bad_alloc {};
void *pp_new(int form, size_t n) {
  switch (form) {
  case 0: return ::operator new(n);
  case 1: return ::operator new(n, std::nothrow);
  case 2: return ::operator new[](n);
  case 3: return ::operator new[](n, std::nothrow);
  case 4: return ::operator new(n, SITE_F, 71);
  case 5: return ::operator new(n, std::nothrow, SITE_F, 72);
  case 6: return ::operator new[](n, SITE_F, 73);
  case 7: return ::operator new[](n, std::nothrow, SITE_F, 74);
  }
  return 0;
}
void pp_del(int form, void *p) {
  switch (form) {
  case 0: ::operator delete(p); break;
  case 1: ::operator delete(p, std::nothrow); break;
  case 2: ::operator delete[](p); break;
  case 3: ::operator delete[](p, std::nothrow); break;
  case 4: ::operator delete(p, SITE_F, 81); break;
  case 5: ::operator delete(p, std::nothrow, SITE_F, 82); break;
  case 6: ::operator delete[](p, SITE_F, 83); break;
  case 7: ::operator delete[](p, std::nothrow, SITE_F, 84); break;
  }
}
int pp_fam(int form) { return (form & 2) ? 2 : 1; }
static int hcount, hlimit, hmode;
static void h() {
  ++hcount;
  if (hmode == 1 && hcount > hlimit) throw std::bad_alloc();
  if (hmode == 2 && hcount > hlimit) throw MyExc();
  if (hmode == 3 && hcount > hlimit) std::set_new_handler(0);
  if (hcount > 1000) _exit(99);
}
/* C21: for each operator form, k failures, handler behaviour */
static void one(int form, int fails, int mode) {
  size_t n = 3 << 20;           /* larger than what is cached: needs the system */
  bool nothrow = form & 1;
  hcount = 0; hmode = mode; hlimit = 2;
  std::set_new_handler(mode ? h : (std::new_handler)0);
  mmap_fail_count = 0;
  extern long oom_calls; 
  /* one allocation attempt may try the system more than once: fail until the handler was called `fails` times */
  extern long fail_until_handler;
  fail_until_handler = 0;
  mmap_fail_at = -2;            /* predicate mode, see exer.c */
  extern int (*mmap_pred)(void);
  static int want; want = fails;
  struct P { static int f() { return want < 0 || hcount < want; } };
  mmap_pred = P::f;
  if (mode == 0 && fails) want = -1;
  void *p = 0; int exc = 0;
  try { p = pp_new(form, n); } catch (MyExc &) { exc = 2; } catch (std::bad_alloc &) { exc = 1; }
  mmap_pred = 0; mmap_fail_at = 0;
  std::new_handler now = std::set_new_handler(0);
  ++cases; ++nontrivial;
  bool succeed = fails == 0 || (mode != 0 && fails <= 2) || (mode == 3 && fails == 3) || (mode == 4);
  if (succeed) {
    if (exc) failf("C21", "operator form %d threw although memory was obtained after %d failures", form, fails);
    if (!p) failf("C21", "operator form %d returned null although the handler (mode %d) had obtained memory after %d failures", form, mode, fails);
    if (mode && hcount != fails) failf("C21", "operator form %d called the handler %d times for %d failures", form, hcount, fails);
  } else {
    if (p) failf("C21", "operator form %d returned memory that was not available", form);
    if (mode == 2 && !nothrow) {
      if (exc != 2) failf("C21", "exception of the new-handler lost in operator form %d", form);
    } else if (nothrow) {
      if (exc) failf("C21", "nothrow operator form %d threw", form);
    } else if (exc != 1) failf("C21", "throwing operator form %d %s instead of throwing bad_alloc (mode %d)", form, p ? "returned" : "returned null", mode);
    if (mode == 1 && hcount != 3) failf("C21", "operator form %d called the handler %d times, expected 3", form, hcount);
  }
  if (mode && !(mode == 3 && hcount > 2) && now != h) failf("C21", "operator form %d did not leave the handler installed", form);
  if (!mode && now) failf("C21", "operator form %d left a handler installed", form);
  if (p) pp_del(form, p);
}
long fail_until_handler, oom_calls;
void pp_main(const char *mode) {
  for (int form = 0; form < NNEW; ++form)
    for (int m = 0; m <= 4; ++m)
      for (int fails = 0; fails <= 5; ++fails) {
        if (m == 3 && fails > 2) { }
        one(form, fails, m);
      }
  sample("C21: 8 operators x {no handler, handler that throws bad_alloc / another exception / deinstalls itself after 2 calls, plain handler} x 0..5 refusals by mmap");
}
