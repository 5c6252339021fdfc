/* nbrun: runs one nano-backup process inside a scratch directory, optionally
   under a syscall-level tracer.

   usage: nbrun [options] -- ARGV0 ARG...
     -b FD        fd of the binary to execute (execveat, default 3)
     -r DIR       chroot into DIR first
     -c DIR       chdir to DIR (after chroot)
     -R           the program performs the chroot on its own (enter.c)
     -u UID:GID   drop to this uid/gid
     -m MASK      umask (octal)
     -n N         RLIMIT_NOFILE
     -t SECONDS   kill after SECONDS of wall time (exit status 124)
     -L FD        trace and write a log to FD
     -K N         SIGKILL right before the N-th mutating system call
     -W N:BYTES   perform only BYTES bytes of N-th mutating call (a write),
                  then SIGKILL
     -E N:ERRNO   make the N-th file system call fail with ERRNO
     -C CLASS     class counted by -E and -P: "fs" all file system calls
                  (default), "mut" mutating ones
     -P N         pause at the N-th call of the class: report on fd 4, wait
                  for one byte on fd 5, resume
     -S           step mode: pause at every call of the class
     -s N:BYTES   let the N-th file system call, a read or write, handle at
                  most BYTES bytes
     -x FD        close FD (0, 1 or 2) for the program
     -V NAME=VAL  add to the environment
     -I SIGNAL    ignore the signal (by number)
     -O N         leave N further descriptors open
     -l RES:N     soft resource limit (RES by number)
     -e           together with -E: every further call of the class that is
                  of the same kind (write) fails, too

   Exit: status of the traced program is reported in the log ("X code" /
   "S signal"), and as own exit status (128+signal for signals). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <grp.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static void fail(const char *what)
{
  dprintf(2, "nbrun: %s: %s\n", what, strerror(errno));
  _exit(125);
}

static FILE *logf_ = NULL;
static pid_t child = -1;

static void onalarm(int sig)
{
  (void)sig;
  if(child > 0) kill(child, SIGKILL);
  _exit(124);
}

typedef struct
{
  int nr;
  const char *name;
  char kind; /* m mutating, r reading, o open, w write, s sync, l lock, c close */
  int paths; /* bitmask of path arguments; -1 stands for fd argument 0 */
} Sys;

static const Sys table[] = {
  { SYS_open, "open", 'o', 1 },
  { SYS_openat, "openat", 'o', 2 },
  { SYS_creat, "creat", 'm', 1 },
  { SYS_write, "write", 'w', 0 },
  { SYS_pwrite64, "pwrite64", 'w', 0 },
  { SYS_writev, "writev", 'w', 0 },
  { SYS_sendfile, "sendfile", 'w', 0 },
  { SYS_copy_file_range, "copy_file_range", 'w', 0 },
  { SYS_rename, "rename", 'm', 3 },
  { SYS_renameat, "renameat", 'm', 10 },
  { SYS_renameat2, "renameat2", 'm', 10 },
  { SYS_unlink, "unlink", 'm', 1 },
  { SYS_unlinkat, "unlinkat", 'm', 2 },
  { SYS_rmdir, "rmdir", 'm', 1 },
  { SYS_mkdir, "mkdir", 'm', 1 },
  { SYS_mkdirat, "mkdirat", 'm', 2 },
  { SYS_symlink, "symlink", 'm', 3 },
  { SYS_symlinkat, "symlinkat", 'm', 5 },
  { SYS_link, "link", 'm', 3 },
  { SYS_linkat, "linkat", 'm', 10 },
  { SYS_chmod, "chmod", 'm', 1 },
  { SYS_fchmod, "fchmod", 'm', 0 },
  { SYS_fchmodat, "fchmodat", 'm', 2 },
  { SYS_chown, "chown", 'm', 1 },
  { SYS_fchown, "fchown", 'm', 0 },
  { SYS_lchown, "lchown", 'm', 1 },
  { SYS_fchownat, "fchownat", 'm', 2 },
  { SYS_utime, "utime", 'm', 1 },
  { SYS_utimes, "utimes", 'm', 1 },
  { SYS_futimesat, "futimesat", 'm', 2 },
  { SYS_utimensat, "utimensat", 'm', 2 },
  { SYS_truncate, "truncate", 'm', 1 },
  { SYS_ftruncate, "ftruncate", 'm', 0 },
  { SYS_fallocate, "fallocate", 'm', 0 },
  { SYS_mknod, "mknod", 'm', 1 },
  { SYS_mknodat, "mknodat", 'm', 2 },
  { SYS_setxattr, "setxattr", 'm', 1 },
  { SYS_fsync, "fsync", 's', 0 },
  { SYS_fdatasync, "fdatasync", 's', 0 },
  { SYS_sync, "sync", 's', 0 },
  { SYS_syncfs, "syncfs", 's', 0 },
  { SYS_close, "close", 'c', 0 },
  { SYS_dup, "dup", 'd', 0 },
  { SYS_dup2, "dup2", 'd', 0 },
  { SYS_dup3, "dup3", 'd', 0 },
  { SYS_lseek, "lseek", 'k', 0 },
  { SYS_fcntl, "fcntl", 'l', 0 },
  { SYS_flock, "flock", 'l', 0 },
  { SYS_read, "read", 'r', 0 },
  { SYS_pread64, "pread64", 'r', 0 },
  { SYS_readv, "readv", 'r', 0 },
  { SYS_stat, "stat", 'r', 1 },
  { SYS_lstat, "lstat", 'r', 1 },
  { SYS_fstat, "fstat", 'r', 0 },
  { SYS_newfstatat, "newfstatat", 'r', 2 },
  { SYS_statx, "statx", 'r', 2 },
  { SYS_access, "access", 'r', 1 },
  { SYS_faccessat, "faccessat", 'r', 2 },
  { SYS_readlink, "readlink", 'r', 1 },
  { SYS_readlinkat, "readlinkat", 'r', 2 },
  { SYS_getdents64, "getdents64", 'r', 0 },
};
enum { TABLE_LEN = sizeof(table) / sizeof(table[0]) };

static const Sys *find(long nr)
{
  for(int i = 0; i < TABLE_LEN; i++)
    if(table[i].nr == nr) return &table[i];
  return NULL;
}

static void installFilter(void)
{
  struct sock_filter f[TABLE_LEN + 5];
  int n = 0;
  f[n++] = (struct sock_filter)BPF_STMT(
    BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for(int i = 0; i <= TABLE_LEN; i++)
  {
    f[n] = (struct sock_filter)BPF_JUMP(
      BPF_JMP | BPF_JEQ | BPF_K, i < TABLE_LEN ? table[i].nr : SYS_chroot,
      (unsigned char)(TABLE_LEN + 1 - i), 0);
    n++;
  }
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  struct sock_fprog prog = { .len = (unsigned short)n, .filter = f };
  if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0) fail("no_new_privs");
  if(syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog) != 0)
    fail("seccomp");
}

static size_t readMem(pid_t pid, uint64_t addr, void *buf, size_t len)
{
  struct iovec l = { buf, len }, r = { (void *)addr, len };
  ssize_t n = process_vm_readv(pid, &l, 1, &r, 1, 0);
  if(n >= 0) return (size_t)n;
  /* Fallback, in case process_vm_readv() is not available. */
  size_t done = 0;
  while(done < len)
  {
    errno = 0;
    long w = ptrace(PTRACE_PEEKDATA, pid, (void *)(addr + done), NULL);
    if(errno != 0) break;
    size_t c = len - done < sizeof w ? len - done : sizeof w;
    memcpy((char *)buf + done, &w, c);
    done += c;
  }
  return done;
}

static void readStr(pid_t pid, uint64_t addr, char *out, size_t cap)
{
  size_t used = 0;
  while(used + 1 < cap)
  {
    size_t chunk = 256 - (addr + used) % 256;
    if(chunk > cap - 1 - used) chunk = cap - 1 - used;
    size_t n = readMem(pid, addr + used, out + used, chunk);
    for(size_t i = 0; i < n; i++)
      if(out[used + i] == 0) return;
    used += n;
    if(n == 0) break;
  }
  out[used] = 0;
}

static void logHex(const unsigned char *p, size_t n)
{
  static const char d[] = "0123456789abcdef";
  for(size_t i = 0; i < n; i++)
  {
    fputc(d[p[i] >> 4], logf_);
    fputc(d[p[i] & 15], logf_);
  }
}


static struct
{
  long kill_at, torn_at, torn_bytes, err_at, pause_at, short_at, short_bytes;
  int err_no, class_mut, step, sticky, late;
  int log_all;
} opt = { -1, -1, 0, -1, -1, -1, 0, 0, 0, 0, 0, 0 };

static long n_fs = 0, n_mut = 0;

static int isMutating(const Sys *s, const struct user_regs_struct *r)
{
  if(s->kind == 'm' || s->kind == 'w') return 1;
  if(s->nr == SYS_open) return (r->rsi & (O_CREAT | O_TRUNC)) != 0;
  if(s->nr == SYS_openat) return (r->rdx & (O_CREAT | O_TRUNC)) != 0;
  return 0;
}

static void logCall(const Sys *s, const struct user_regs_struct *r,
                    int with_result, long result)
{
  static char buf[70000];
  const uint64_t args[6] = { r->rdi, r->rsi, r->rdx, r->r10, r->r8, r->r9 };
  fprintf(logf_, "{\"i\":%ld,\"m\":%ld,\"n\":\"%s\",\"a\":[%lld,%lld,%lld,%lld,%lld],\"p\":[",
          n_fs, n_mut, s->name, (long long)(int64_t)args[0],
          (long long)(int64_t)args[1], (long long)(int64_t)args[2],
          (long long)(int64_t)args[3], (long long)(int64_t)args[4]);
  int first = 1;
  for(int i = 0; i < 6; i++)
  {
    if(s->paths & (1 << i))
    {
      readStr(child, args[i], buf, sizeof buf);
      fprintf(logf_, first ? "\"" : ",\"");
      first = 0;
      logHex((unsigned char *)buf, strlen(buf));
      fputc('"', logf_);
    }
  }
  fputc(']', logf_);
  if(s->nr == SYS_write || s->nr == SYS_pwrite64)
  {
    fprintf(logf_, ",\"d\":\"");
    uint64_t left = args[2], at = args[1];
    while(left > 0)
    {
      size_t c = left < sizeof buf ? left : sizeof buf;
      size_t n = readMem(child, at, buf, c);
      logHex((unsigned char *)buf, n);
      if(n == 0) break;
      left -= n;
      at += n;
    }
    fputc('"', logf_);
  }
  else if(s->nr == SYS_writev)
  {
    fprintf(logf_, ",\"d\":\"");
    for(uint64_t i = 0; i < args[2] && i < 64; i++)
    {
      struct iovec v;
      if(readMem(child, args[1] + i * sizeof v, &v, sizeof v) != sizeof v)
        break;
      uint64_t left = v.iov_len, at = (uint64_t)v.iov_base;
      while(left > 0)
      {
        size_t c = left < sizeof buf ? left : sizeof buf;
        size_t n = readMem(child, at, buf, c);
        logHex((unsigned char *)buf, n);
        if(n == 0) break;
        left -= n;
        at += n;
      }
    }
    fputc('"', logf_);
  }
  if(with_result) fprintf(logf_, ",\"r\":%ld", result);
  fprintf(logf_, "}\n");
}

static int finish(int status)
{
  if(logf_ != NULL)
  {
    if(WIFEXITED(status))
      fprintf(logf_, "{\"x\":%d,\"fs\":%ld,\"mut\":%ld}\n",
              WEXITSTATUS(status), n_fs, n_mut);
    else
      fprintf(logf_, "{\"s\":%d,\"fs\":%ld,\"mut\":%ld}\n",
              WTERMSIG(status), n_fs, n_mut);
    fflush(logf_);
  }
  return WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
}

static void setRegs(const struct user_regs_struct *r)
{
  if(ptrace(PTRACE_SETREGS, child, NULL, r) != 0) fail("setregs");
}

static int trace(void)
{
  int status;
  int sticky_nr = -1;
  if(waitpid(child, &status, 0) != child) fail("waitpid");
  if(!WIFSTOPPED(status)) return finish(status);
  if(ptrace(PTRACE_SETOPTIONS, child, NULL,
            PTRACE_O_TRACESECCOMP | PTRACE_O_EXITKILL |
              PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEEXEC) != 0)
    fail("setoptions");
  ptrace(PTRACE_CONT, child, NULL, NULL);
  int started = 0;

  while(1)
  {
    if(waitpid(child, &status, 0) != child) fail("waitpid");
    if(WIFEXITED(status) || WIFSIGNALED(status)) return finish(status);
    const int sig = WSTOPSIG(status);
    const int event = status >> 16;
    if(event == PTRACE_EVENT_EXEC)
    {
      started = !opt.late;
      ptrace(PTRACE_CONT, child, NULL, NULL);
      continue;
    }
    if(event != PTRACE_EVENT_SECCOMP)
    {
      ptrace(PTRACE_CONT, child, NULL,
             (void *)(long)(sig == (SIGTRAP | 0x80) || sig == SIGTRAP ? 0
                                                                      : sig));
      continue;
    }
    struct user_regs_struct r;
    if(ptrace(PTRACE_GETREGS, child, NULL, &r) != 0) fail("getregs");
    const Sys *s = find((long)r.orig_rax);
    if(r.orig_rax == SYS_chroot && opt.late) started = 1;
    int ignore = !started || s == NULL;
    /* The places where the program waits for the user. */
    const int asking = opt.step && s != NULL && s->nr == SYS_read && r.rdi == 0;
    if(!ignore && s->paths == 0 && s->nr != SYS_sync &&
       (int64_t)r.rdi <= 2 && !asking)
      ignore = 1;
    if(!ignore && s->nr == SYS_fcntl &&
       !(r.rsi == F_SETLK || r.rsi == F_SETLKW || r.rsi == 37 || r.rsi == 38))
      ignore = 1;
    if(ignore)
    {
      ptrace(PTRACE_CONT, child, NULL, NULL);
      continue;
    }

    const int mut = isMutating(s, &r);
    const int counted = s->kind != 'k' && s->kind != 'd' && !asking;
    if(counted) n_fs++;
    if(mut) n_mut++;
    const long n = opt.class_mut ? n_mut : n_fs;
    const int hit = opt.class_mut ? mut : counted;

    if((mut && n_mut == opt.kill_at))
    {
      if(logf_) logCall(s, &r, 0, 0);
      kill(child, SIGKILL);
      continue;
    }
    if((hit || asking) && (opt.step || n == opt.pause_at))
    {
      FILE *saved = logf_;
      logf_ = fdopen(dup(4), "w");
      logCall(s, &r, 0, 0);
      fclose(logf_);
      logf_ = saved;
      char c = 0;
      if(read(5, &c, 1) != 1 || c == 'k')
      {
        kill(child, SIGKILL);
        continue;
      }
      if(c == 'r') opt.step = 0;
    }
    if((hit && n == opt.err_at) ||
       (opt.sticky && sticky_nr == s->nr && sticky_nr >= 0))
    {
      if(logf_) logCall(s, &r, 1, -opt.err_no);
      sticky_nr = s->nr;
      r.orig_rax = (unsigned long)-1;
      r.rax = (unsigned long)(long)-opt.err_no;
      setRegs(&r);
      ptrace(PTRACE_CONT, child, NULL, NULL);
      continue;
    }
    if(mut && n_mut == opt.torn_at)
    {
      if(s->kind == 'w' && (s->nr == SYS_write || s->nr == SYS_pwrite64) &&
         opt.torn_bytes > 0)
      {
        if(r.rdx > (unsigned long)opt.torn_bytes)
          r.rdx = (unsigned long)opt.torn_bytes;
        setRegs(&r);
        ptrace(PTRACE_SYSCALL, child, NULL, NULL);
        waitpid(child, &status, 0);
      }
      kill(child, SIGKILL);
      continue;
    }
    if(counted && n_fs == opt.short_at &&
       (s->nr == SYS_write || s->nr == SYS_read || s->nr == SYS_pread64 ||
        s->nr == SYS_pwrite64) && r.rdx > (unsigned long)opt.short_bytes)
    {
      r.rdx = (unsigned long)opt.short_bytes;
      setRegs(&r);
    }
    if(opt.log_all)
    {
      const struct user_regs_struct entry = r;
      if(ptrace(PTRACE_SYSCALL, child, NULL, NULL) != 0) continue;
      if(waitpid(child, &status, 0) != child) fail("waitpid");
      if(WIFEXITED(status) || WIFSIGNALED(status)) return finish(status);
      if(ptrace(PTRACE_GETREGS, child, NULL, &r) != 0) fail("getregs");
      logCall(s, &entry, 1, (long)r.rax);
    }
    ptrace(PTRACE_CONT, child, NULL, NULL);
  }
}

int main(int argc, char **argv)
{
  const char *root = NULL, *dir = NULL;
  int bin = 3, timeout = 0, uid = -1, gid = -1, tracing = 0, c, logfd = -1;
  long nofile = -1;
  int closed = 0, vars = 0;
  enum { MAX_VARS = 16 };
  char *var[MAX_VARS];
  while((c = getopt(argc, argv, "+b:r:c:u:m:n:t:L:K:W:E:C:P:s:SeRx:V:I:O:l:")) != -1)
  {
    switch(c)
    {
      case 'b': bin = atoi(optarg); break;
      case 'r': root = optarg; break;
      case 'c': dir = optarg; break;
      case 'u':
        if(sscanf(optarg, "%d:%d", &uid, &gid) != 2) fail("-u");
        break;
      case 'm': umask((mode_t)strtol(optarg, NULL, 8)); break;
      case 'n': nofile = atol(optarg); break;
      case 't': timeout = atoi(optarg); break;
      case 'L': logfd = atoi(optarg); tracing = 1; opt.log_all = 1; break;
      case 'K': opt.kill_at = atol(optarg); tracing = 1; break;
      case 'W':
        if(sscanf(optarg, "%ld:%ld", &opt.torn_at, &opt.torn_bytes) != 2)
          fail("-W");
        tracing = 1;
        break;
      case 'E':
        if(sscanf(optarg, "%ld:%d", &opt.err_at, &opt.err_no) != 2)
          fail("-E");
        tracing = 1;
        break;
      case 'C': opt.class_mut = strcmp(optarg, "mut") == 0; break;
      case 'P': opt.pause_at = atol(optarg); tracing = 1; break;
      case 's':
        if(sscanf(optarg, "%ld:%ld", &opt.short_at, &opt.short_bytes) != 2)
          fail("-s");
        tracing = 1;
        break;
      case 'S': opt.step = 1; tracing = 1; break;
      case 'e': opt.sticky = 1; break;
      case 'R': opt.late = 1; break;
      case 'x': closed |= 1 << atoi(optarg); break;
      case 'V':
        if(vars == MAX_VARS) fail("-V");
        var[vars++] = optarg;
        break;
      case 'I': signal(atoi(optarg), SIG_IGN); break;
      case 'O':
        for(int i = atoi(optarg); i > 0; i--)
          if(open("/dev/null", O_RDWR) == -1) fail("-O");
        break;
      case 'l':
      {
        int res;
        long n;
        struct rlimit l;
        if(sscanf(optarg, "%d:%ld", &res, &n) != 2 ||
           getrlimit(res, &l) != 0)
          fail("-l");
        l.rlim_cur = (rlim_t)n;
        if(setrlimit(res, &l) != 0) fail("setrlimit");
        break;
      }
      default: return 125;
    }
  }
  argv += optind;
  if(logfd >= 0)
  {
    logf_ = fdopen(logfd, "w");
    fcntl(logfd, F_SETFD, FD_CLOEXEC);
  }
  fcntl(bin, F_SETFD, 0);
  if(!opt.late)
  {
    if(root != NULL && (chdir(root) != 0 || chroot(root) != 0))
      fail("chroot");
    if(dir != NULL && chdir(dir) != 0) fail("chdir");
  }
  if(nofile >= 0)
  {
    struct rlimit l = { (rlim_t)nofile, (rlim_t)nofile };
    setrlimit(RLIMIT_NOFILE, &l);
  }
  if(uid >= 0)
  {
    gid_t g = (gid_t)gid;
    (void)setgroups(1, &g);
    if(setresgid(g, g, g) != 0 ||
       setresuid((uid_t)uid, (uid_t)uid, (uid_t)uid) != 0)
      fail("setuid");
    if(tracing) prctl(PR_SET_DUMPABLE, 1, 0, 0, 0);
  }
  char *envp[] = { "LANG=C", "PATH=/bin",
                   getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") - 13 : NULL,
                   NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
                   NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
                   NULL, NULL };
  if(getenv("UBSAN_OPTIONS"))
    envp[envp[2] ? 3 : 2] = getenv("UBSAN_OPTIONS") - 14;
  if(opt.late && root != NULL)
  {
    char **e = envp;
    while(*e != NULL) e++;
    if(asprintf(e, "NBV_ROOT=%s", root) < 0) fail("asprintf");
    if(dir != NULL && asprintf(e + 1, "NBV_DIR=%s", dir) < 0)
      fail("asprintf");
  }
  {
    char **e = envp;
    while(*e != NULL) e++;
    for(int i = 0; i < vars; i++) e[i] = var[i];
  }
  fcntl(bin, F_SETFD, FD_CLOEXEC);
  if(!tracing && timeout == 0)
  {
    for(int i = 0; i < 3; i++)
      if(closed & (1 << i)) close(i);
    syscall(SYS_execveat, bin, "", argv, envp, AT_EMPTY_PATH);
    fail("execveat");
  }

  child = fork();
  if(child == -1) fail("fork");
  if(child == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if(logfd >= 0) close(logfd);
    close(4);
    close(5);
    if(tracing)
    {
      if(ptrace(PTRACE_TRACEME, 0, NULL, NULL) != 0) fail("traceme");
      raise(SIGSTOP);
      installFilter();
    }
    syscall(SYS_execveat, bin, "", argv, envp, AT_EMPTY_PATH);
    fail("execveat");
  }
  if(timeout > 0)
  {
    signal(SIGALRM, onalarm);
    alarm((unsigned)timeout);
  }
  if(tracing) return trace();
  int status;
  if(waitpid(child, &status, 0) != child) fail("waitpid");
  return finish(status);
}
