/* A wall clock the harness controls: CLOCK_REALTIME and friends answer what vclock_set said. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

static volatile int frozen;
static volatile long long f_sec;
static volatile long f_nsec;

void vclock_set(long long sec, long nsec) { f_sec = sec; f_nsec = nsec; frozen = 1; }
void vclock_off(void) { frozen = 0; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int (*real)(clockid_t, struct timespec *);
    if (frozen && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)) {
        ts->tv_sec = f_sec;
        ts->tv_nsec = f_nsec;
        return 0;
    }
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, ts);
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
