"""Runs the program with terminals as standard streams, and shows what a
person in front of them sees."""
import errno
import os
import re
import select
import signal
import termios
import time

from .driver import Violation
from .sandbox import Result, Runner, dec, enc

SEQ = re.compile("\033\\[([0-9;]*)([A-Za-z])")


class TtyResult(Result):
    __slots__ = ("raw_out", "raw_err", "frames")


def open_pty():
    m, s = os.openpty()
    a = termios.tcgetattr(s)
    a[0] = 0                            # input flags
    a[1] = 0                            # output flags
    a[3] = termios.ICANON               # no echo, no signals
    termios.tcsetattr(s, termios.TCSANOW, a)
    return m, s


class Screen:
    """A terminal of unlimited size."""

    def __init__(self):
        self.rows, self.y, self.x = [""], 0, 0
        self.sgr = "0"
        self.frames = []        # rows which were overwritten

    def feed(self, text):
        pos = 0
        while pos < len(text):
            c = text[pos]
            if c == "\033":
                m = SEQ.match(text, pos)
                if m is None:
                    raise Violation("unknown control sequence %r" %
                                    text[pos:pos + 20], "sequence")
                self.control(m.group(1), m.group(2))
                pos = m.end()
                continue
            pos += 1
            if c == "\n":
                self.y += 1
                self.x = 0
                while len(self.rows) <= self.y:
                    self.rows.append("")
            else:
                r = self.rows[self.y].ljust(self.x)
                self.rows[self.y] = r[:self.x] + c + r[self.x + 1:]
                self.x += 1

    def control(self, arg, op):
        if op == "m":
            if not re.fullmatch("[0-9;]*", arg):
                raise Violation("bad colour %r" % arg, "sequence")
            self.sgr = "0" if arg in ("", "0") else arg
            return
        n = int(arg) if arg.isdigit() else None
        if op == "F" and n is not None:
            if self.y < n:
                raise Violation("the cursor leaves the screen", "screen")
            self.y -= n
            self.x = 0
        elif op == "K" and n == 2:
            if self.rows[self.y]:
                self.frames.append(self.rows[self.y])
            self.rows[self.y] = ""
        else:
            raise Violation("unknown control sequence %r" % (arg + op),
                            "sequence")

    def text(self):
        return "\n".join(self.rows)


class TtyRunner(Runner):
    """which: the standard streams which are terminals."""

    def __init__(self, nbrun, binary):
        super().__init__(nbrun, binary)
        self.which = (1,)

    def run(self, root, argv, stdin=b"", opts=(), cwd=None, chroot=True,
            log=False, timeout=60):
        self._reset(enc(stdin))
        fds = list(self.fds)
        masters, slaves = {}, []
        data = {1: b"", 2: b""}
        try:
            for i in self.which:
                m, s = open_pty()
                masters[m] = i
                slaves.append(s)
                fds[i] = s
            if 0 in self.which:
                m = [k for k, v in masters.items() if v == 0][0]
                os.write(m, enc(stdin) + b"\4\4")
            pid = self.spawn(root, argv, opts, cwd=cwd, fds=fds,
                             chroot=chroot)
            for s in slaves:
                os.close(s)
            slaves = []
            end = time.time() + timeout
            expired = False
            waiting = [m for m, i in masters.items()]
            while waiting:
                left = end - time.time()
                if left <= 0:
                    expired = True
                    os.kill(pid, signal.SIGKILL)
                    end += 1000
                ready, _, _ = select.select(waiting, [], [],
                                            max(0.01, left))
                for m in ready:
                    try:
                        d = os.read(m, 65536)
                    except OSError as e:
                        if e.errno != errno.EIO:
                            raise
                        d = b""
                    if not d:
                        waiting.remove(m)
                    elif masters[m] in data:
                        data[masters[m]] += d
            from .sandbox import wait_for
            status, exp2 = wait_for(pid, max(1, end - time.time()))
        finally:
            for fd in list(masters) + slaves:
                os.close(fd)
        r = self.collect(status, expired or exp2)
        res = TtyResult(r.code, r.out, r.err, None, r.timeout)
        res.frames = []
        raw = {1: r.out, 2: r.err}
        shown = {}
        for i in (1, 2):
            if i not in self.which:
                if "\033" in raw[i]:
                    raise Violation("a redirected stream has control "
                                    "sequences", "redirected", r.brief())
                shown[i] = raw[i]
                continue
            raw[i] = dec(data[i])
            s = Screen()
            s.feed(raw[i])
            if s.sgr != "0":
                raise Violation("the terminal is left with colour %s" %
                                s.sgr, "colour", {"output": raw[i][-600:]})
            shown[i] = s.text()
            if i == 1:
                res.frames = s.frames
        res.raw_out, res.raw_err = raw[1], raw[2]
        res.out, res.err = shown[1], shown[2]
        return res
