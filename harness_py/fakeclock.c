/* Preloaded into the interpreter: the clock asked by the code under test is the one the checker set. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
static int on; static long long mono_ns, real_us;
void vp_set(long long m, long long r) { on = 1; mono_ns = m; real_us = r; }
void vp_release(void) { on = 0; }
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (on && id == CLOCK_REALTIME) { ts->tv_sec = real_us / 1000000; ts->tv_nsec = real_us % 1000000 * 1000; return 0; }
    if (on) { ts->tv_sec = mono_ns / 1000000000; ts->tv_nsec = mono_ns % 1000000000; return 0; }
    return syscall(SYS_clock_gettime, id, ts);
}
