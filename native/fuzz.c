/* Coverage-guided generation of metadata and config files: the reader of the
   code under test is run in this process on the bytes of libFuzzer, which
   keeps those that reach something new. The judge of these files is not here:
   every one is given to the real program afterwards, and compared with an
   independent implementation. Only memory errors are noticed here.

   Linked with --wrap for the function that reads files and for the functions
   that end the process. */
#include <setjmp.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "CRegion/region.h"
#include "error-handling.h"
#include "metadata.h"
#include "safe-wrappers.h"
#include "search-tree.h"

static jmp_buf out;
static const uint8_t *bytes;
static size_t length;
static int inside;

/* (CRegion ends the process if it gets no memory.) */
void __real_exit(int status);
void __wrap_exit(int status)
{
  if(inside) longjmp(out, 1);
  __real_exit(status);
}

void __wrap_die(const char *format, ...) { longjmp(out, 1); }
void __wrap_dieErrno(const char *format, ...) { longjmp(out, 1); }

FileContent __wrap_sGetFilesContent(CR_Region *region, StringView path)
{
  /* (A buffer of exactly this size, for the address sanitizer.) */
  char *copy = CR_RegionAlloc(region, length == 0 ? 1 : length);
  memcpy(copy, bytes, length);
  return (FileContent){ .content = copy, .size = length };
}

/* Nested repetitions make regcomp() take forever. */
static int harmless(const uint8_t *data, size_t size)
{
  int ops = 0, parens = 0;
  for(size_t i = 0; i < size; i++)
  {
    if(data[i] == 0) return 0;
    if(data[i] == '\n') ops = 0, parens = 0;
    ops += data[i] == '{' || data[i] == '+' || data[i] == '*' ||
      data[i] == '?';
    parens += data[i] == '(';
    if(ops > 3 || parens > 6) return 0;
  }
  return 1;
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
  bytes = data;
  length = size;
  CR_Region *r = CR_RegionNew();
  if(setjmp(out) == 0)
  {
    inside = 1;
#ifdef FUZZ_META
    metadataLoad(r, str("metadata"));
#else
    if(harmless(data, size)) searchTreeLoad(r, str("config"));
#endif
  }
  inside = 0;
  CR_RegionRelease(r);
  return 0;
}
