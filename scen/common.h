#ifndef COMMON_H
#define COMMON_H
#include <windows.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <errno.h>
#include <signal.h>
#include <process.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <limits.h>
#include "mc.h"
#define OK(call) MC_EQ(call, 0, "unexpected error")
#define EQ(call, want) MC_EQ(call, want, "wrong result")
#define VP(x) ((void *)(intptr_t)(x))
#define EPOCH100 0x19DB1DED53E8000ULL
/* ghost words: part of the state, but accesses are not scheduling points (atomic with the preceding visible step) */
#define GH(i) (*(long long *)(mc_ghost() + (i)))
static pthread_t th_[8]; static int nth_;
static void go(int n, void *(*fn)(void *)) { for (int i = 0; i < n; i++) { OK(pthread_create(&th_[nth_], NULL, fn, VP(nth_))); nth_++; } }
static void joinall(void) { void *r; for (int i = 0; i < nth_; i++) OK(pthread_join(th_[i], &r)); nth_ = 0; }
/* absolute deadline ms milliseconds (may be negative) after the current simulated time */
static struct timespec ts_in(long long ms)
{ struct timespec t; mcu64 d = mc_now() - EPOCH100 + (mcu64)(ms * 10000); t.tv_sec = (long)(d / 10000000); t.tv_nsec = (long)(d % 10000000) * 100; return t; }
/* has the absolute time passed? */
static int ts_passed(const struct timespec *t)
{ mcu64 d = mc_now() - EPOCH100; mcu64 w = (mcu64)t->tv_sec * 10000000ULL + (mcu64)((t->tv_nsec + 99) / 100); return d >= w; }
static void done(void) { mc_wait_all(); mc_proc_detach(); }
#endif
