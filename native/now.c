/* The time of the system is NBNOW (seconds since 1970), if given. */
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

int __real_clock_gettime(clockid_t, struct timespec *);

static int now(long long *result)
{
  const char *s = getenv("NBNOW");
  if(s == NULL) return 0;
  *result = strtoll(s, NULL, 10);
  return 1;
}

int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
  long long n;
  const int res = __real_clock_gettime(id, t);
  if(res == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) &&
     now(&n))
  {
    t->tv_sec = n;
  }
  return res;
}

int __wrap_gettimeofday(struct timeval *t, void *zone)
{
  struct timespec s;
  (void)zone;
  __wrap_clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}

time_t __wrap_time(time_t *t)
{
  struct timespec s;
  __wrap_clock_gettime(CLOCK_REALTIME, &s);
  if(t != NULL) *t = s.tv_sec;
  return s.tv_sec;
}
