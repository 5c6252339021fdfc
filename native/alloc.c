/* Makes memory allocations fail: NBFAIL=N:K lets K allocations (all for 0)
   from the N-th on fail. Writes the number of all allocations to descriptor
   7 at the end. */
#include <errno.h>
#include <regex.h>
#include <stddef.h>
#include <stdlib.h>
#include <unistd.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);

static unsigned long count, at, number;
static int ready, started;

static int fails(void)
{
  if(!ready)
  {
    ready = 1;
    const char *s = getenv("NBFAIL");
    if(s != NULL)
    {
      char *end;
      at = strtoul(s, &end, 10);
      number = *end == ':' ? strtoul(end + 1, NULL, 10) : 1;
    }
  }
  if(!started) return 0;
  count++;
  if(at == 0 || count < at || (number != 0 && count >= at + number)) return 0;
  errno = ENOMEM;
  return 1;
}

void *__wrap_malloc(size_t n)
{
  return fails() ? NULL : __real_malloc(n);
}

void *__wrap_calloc(size_t a, size_t b)
{
  return fails() ? NULL : __real_calloc(a, b);
}

void *__wrap_realloc(void *p, size_t n)
{
  return fails() ? NULL : __real_realloc(p, n);
}

/* What the C library needs before is not of interest. */
int __real_main(int, char **, char **);

int __wrap_main(int argc, char **argv, char **env)
{
  started = 1;
  return __real_main(argc, argv, env);
}

/* The C library itself does not survive failures everywhere inside of its
   regular expressions: here they fail as a whole. */
int __real_regcomp(regex_t *, const char *, int);
int __real_regexec(const regex_t *, const char *, size_t, regmatch_t *, int);

int __wrap_regcomp(regex_t *r, const char *s, int flags)
{
  if(fails()) return REG_ESPACE;
  const int old = started;
  started = 0;
  const int res = __real_regcomp(r, s, flags);
  started = old;
  return res;
}

int __wrap_regexec(const regex_t *r, const char *s, size_t n,
                   regmatch_t *m, int flags)
{
  if(fails()) return REG_ESPACE;
  const int old = started;
  started = 0;
  const int res = __real_regexec(r, s, n, m, flags);
  started = old;
  return res;
}

__attribute__((destructor)) static void report(void)
{
  const int e = errno;
  if(pwrite(7, &count, sizeof count, 0) < 0) errno = e;
}
