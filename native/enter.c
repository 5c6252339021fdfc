/* Linked into the sanitizer builds: they need the dynamic loader and /proc to
   start, so that they enter the scratch directory by themselves. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>

__attribute__((constructor)) static void nbvEnter(void)
{
  const char *root = getenv("NBV_ROOT"), *dir = getenv("NBV_DIR");
  if(root == NULL) return;
  if(chdir(root) != 0 || chroot(root) != 0 ||
     (dir != NULL && chdir(dir) != 0))
    _exit(125);
  unsetenv("NBV_ROOT");
  unsetenv("NBV_DIR");
}
