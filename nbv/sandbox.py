"""Contained execution: worker processes live in a user namespace of their
own, as a "root" which owns nothing but its scratch directory; the program
under test runs chrooted into that scratch directory."""
import json
import os
import shutil
import signal
import sys
import tempfile
import time

CLONE_NEWUSER = 0x10000000
SUBUID = 300000
# Known ids: first one, offset outside, number.
IDS = [(0, 0, 65000), (65534, 65000, 1), (65536, 65001, 10),
       (0x7fffffff, 65020, 2), (0xfffffffe, 65030, 1)]


def known_id(i):
    return any(a <= i < a + n for a, _, n in IDS)


LAT = "latin-1"


def enc(s):
    return s.encode(LAT) if isinstance(s, str) else s


def dec(b):
    return b.decode(LAT)


class InfraError(Exception):
    """The harness itself failed; never a verdict."""


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 200 << 20:
                p = tempfile.mkdtemp(prefix="nbv-", dir=d)
                return p
        except OSError:
            continue
    raise InfraError("no scratch space")


def spawn_contained(fn):
    """Forks a process which is root of a fresh user namespace, mapped to
    otherwise unused ids, and runs fn() there. Returns its pid."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 125
        try:
            os.close(r1)
            os.close(w2)
            import ctypes
            libc = ctypes.CDLL(None, use_errno=True)
            if libc.unshare(CLONE_NEWUSER) != 0:
                raise InfraError("unshare failed: errno %d" %
                                 ctypes.get_errno())
            os.write(w1, b"u")
            if os.read(r2, 1) != b"m":
                raise InfraError("id mapping failed")
            os.close(w1)
            os.close(r2)
            os.setgroups([])
            os.setresgid(0, 0, 0)
            os.setresuid(0, 0, 0)
            libc.prctl(4, 1, 0, 0, 0)  # dumpable
            libc.prctl(1, signal.SIGKILL, 0, 0, 0)  # die with the parent
            fn()
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(w1)
    os.close(r2)
    if os.read(r1, 1) == b"u":
        try:
            for f in ("uid_map", "gid_map"):
                with open("/proc/%d/%s" % (pid, f), "w") as fh:
                    fh.write("".join("%d %d %d\n" % (a, SUBUID + b, n)
                                     for a, b, n in IDS))
            os.write(w2, b"m")
        except OSError as e:
            print("id mapping: %s" % e, file=sys.stderr)
            os.write(w2, b"x")
    os.close(r1)
    os.close(w2)
    return pid


class Result:
    __slots__ = ("code", "out", "err", "log", "timeout")

    def __init__(self, code, out, err, log=None, timeout=False):
        self.code, self.out, self.err = code, out, err
        self.log, self.timeout = log, timeout

    def brief(self):
        return {"code": self.code, "out": self.out[-600:],
                "err": self.err[-600:]}


class Runner:
    """Runs the program under test; one per worker."""

    def __init__(self, nbrun, binary, late=False):
        self.late = late
        self.nbrun = nbrun
        self.bin = os.open(binary, os.O_RDONLY)
        self.fds = [os.memfd_create("nbv%d" % i) for i in range(4)]
        self.runs = 0
        self.passed = []        # further descriptors: (from, to)
        self.env = {"LANG": "C",
                    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:"
                    "allocator_may_return_null=1:symbolize=0",
                    "MSAN_OPTIONS": "abort_on_error=1:symbolize=0:"
                    "poison_in_malloc=1",
                    "UBSAN_OPTIONS": "abort_on_error=1"}

    def _reset(self, data):
        for fd in self.fds:
            os.ftruncate(fd, 0)
            os.lseek(fd, 0, 0)
        if data:
            os.write(self.fds[0], data)
            os.lseek(self.fds[0], 0, 0)

    def spawn(self, root, argv, opts=(), stdin=b"", cwd=None, fds=None,
              extra=(), chroot=True, report=None, control=None, log=False):
        """Starts the program, returns its pid."""
        fds = fds or self.fds
        args = [self.nbrun]
        if chroot:
            args += ["-r", root]
            if cwd:
                args += ["-c", cwd]
        else:
            args += ["-c", cwd or root]
        if self.late:
            args.append("-R")
        args += list(opts)
        if log:
            args += ["-L", "6"]
        args += ["--", "nb"]
        args = [enc(a) for a in args] + [enc(a) for a in argv]
        # The low descriptors may be occupied: duplicate far away first.
        acts = []
        wanted = [(fds[0], 0), (fds[1], 1), (fds[2], 2), (self.bin, 3)]
        if report is not None:
            wanted += [(report, 4), (control, 5)]
        if log:
            wanted += [(fds[3], 6)]
        wanted += self.passed
        for i, (src, dst) in enumerate(wanted):
            acts.append((os.POSIX_SPAWN_DUP2, src, 100 + i))
        for i, (src, dst) in enumerate(wanted):
            acts.append((os.POSIX_SPAWN_DUP2, 100 + i, dst))
            acts.append((os.POSIX_SPAWN_CLOSE, 100 + i))
        self.runs += 1
        return os.posix_spawn(self.nbrun, args, self.env, file_actions=acts)

    def collect(self, status, timeout=False, log=False, fds=None):
        fds = fds or self.fds
        out = dec(os.pread(fds[1], 1 << 24, 0))
        err = dec(os.pread(fds[2], 1 << 24, 0))
        lg = None
        if log:
            raw = os.pread(fds[3], 1 << 28, 0)
            lg = [json.loads(l) for l in raw.split(b"\n") if l.endswith(b"}")]
        if os.WIFEXITED(status):
            code = os.WEXITSTATUS(status)
        else:
            code = 128 + os.WTERMSIG(status)
        if code == 125 and "nbrun:" in err:
            raise InfraError(err)
        return Result(code, out, err, lg, timeout)

    def run(self, root, argv, stdin=b"", opts=(), cwd=None, chroot=True,
            log=False, timeout=60):
        self._reset(enc(stdin))
        pid = self.spawn(root, argv, opts, cwd=cwd, chroot=chroot, log=log)
        status, expired = wait_for(pid, timeout)
        return self.collect(status, expired, log)


class _Alarm(Exception):
    pass


def _on_alarm(sig, frame):
    raise _Alarm()


def wait_for(pid, timeout):
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            _, status = os.waitpid(pid, 0)
            return status, False
        except _Alarm:
            os.kill(pid, signal.SIGKILL)
            _, status = os.waitpid(pid, 0)
            return status, True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def rmtree(path):
    """Removes the content of a scratch directory (contained caller)."""
    assert "/nbv-" in path, path
    p = enc(path)
    try:
        st = os.lstat(p)
    except FileNotFoundError:
        return
    _rm(p, st)


def _rm(p, st):
    import stat as S
    if S.S_ISDIR(st.st_mode):
        if st.st_mode & 0o700 != 0o700:
            os.chmod(p, 0o700)
        with os.scandir(p) as it:
            entries = list(it)
        for e in entries:
            _rm(e.path, e.stat(follow_symlinks=False))
        os.rmdir(p)
    else:
        os.unlink(p)


def empty_dir(path):
    """Makes an empty directory at the path."""
    rmtree(path)
    os.mkdir(path)
