/* Preloaded into the external tools: their clocks stand still, so that the time stamps they
   write into their answers do not differ between two executions of one seed. */
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <string.h>
time_t time(time_t *t) { if (t) *t = 1000000000; return 1000000000; }
clock_t clock(void) { return 10000; }
int gettimeofday(struct timeval *tv, void *tz) { if (tv) { tv->tv_sec = 1000000000; tv->tv_usec = 0; } return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = 1000000000; ts->tv_nsec = 0; return 0; }
clock_t times(struct tms *b) { if (b) memset(b, 0, sizeof *b); return 1000; }
int getrusage(__rusage_who_t who, struct rusage *r) { memset(r, 0, sizeof *r); r->ru_maxrss = 4096; return 0; }
