"""The simulated wall clock: a preloaded library that answers CLOCK_REALTIME queries with a time the simulator sets.

`build(dir)` compiles the library; processes started with LD_PRELOAD set to it can `set_time`.  Without it `set_time` says so.
"""
import ctypes
import os
import subprocess

SOURCE = r"""
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
static int on = 0;
static long sec = 0;
void sim_clock_set(long s) { sec = s; on = 1; }
void sim_clock_off(void) { on = 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = sec; t->tv_nsec = 123456789; return 0; }
    return syscall(SYS_clock_gettime, c, t);
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
"""

_lib = None


def build(directory):
    src, out = os.path.join(directory, "simclock.c"), os.path.join(directory, "simclock.so")
    with open(src, "w") as f:
        f.write(SOURCE)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", out, src], check=True, capture_output=True)
    return out


def _get():
    global _lib
    if _lib is None:
        try:
            _lib = ctypes.CDLL(None)
            _lib.sim_clock_set.argtypes = [ctypes.c_long]
        except (OSError, AttributeError):
            _lib = False
    return _lib


def set_time(t):
    """Sets the time of day of this process; False if the simulated clock is not loaded"""
    lib = _get()
    if not lib:
        return False
    lib.sim_clock_set(int(t))
    return True


def off():
    lib = _get()
    if lib:
        lib.sim_clock_off()
