/* Bounded exerciser: runs the real code (compiled from /repo's working tree) on concrete cases.
 * It replays counterexamples and stands in where no obligation can be discharged. */
#ifndef EXER_H
#define EXER_H
#include <stdlib.h>
#define DUMA_SKIP_SETUP
#include "duma.h"
#include "duma_sem.h"
#include "print.h"
#include <stdio.h>
#include <stdarg.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/wait.h>
#ifdef __cplusplus
extern "C" {
#endif
#define PG 4096UL
typedef unsigned char u8;
extern const char *PROP;
extern unsigned long cases, nontrivial;
void failf(const char *prop, const char *fmt, ...);
void sample(const char *fmt, ...);
uint64_t rnd(void);
void snap(void);
int perm(uintptr_t a);            /* 0 unmapped, 1 no access, 2 other, 3 read+write (last snapshot) */
int run_child(void (*f)(void *), void *arg, char *out, int outsz);   /* status; stderr text */
int aborted(int st, const char *out);
/* interposition */
extern long mmap_fail_at, mmap_calls, mmap_fail_count, lock_depth, unprot_nolock;
size_t mmap_limit(size_t);
/* C++ side */
void *pp_new(int form, size_t n);
void pp_del(int form, void *p);
int pp_fam(int form);
void pp_main(const char *mode);
#define NNEW 8
#define NDEL 8
#define SITE_F "site_file.c"
#ifdef __cplusplus
}
#endif
#endif
