/* A clock which moves enough for every progress report to be due. Now and
   then it jumps. */
#include <time.h>

int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
  static unsigned long calls;
  static long long now = 1700000000000LL;
  (void)id;
  now += ++calls % 7 == 3 ? 20 : calls % 11 == 5 ? -100000 : 60;
  t->tv_sec = now / 1000;
  t->tv_nsec = now % 1000 * 1000000;
  return 0;
}
