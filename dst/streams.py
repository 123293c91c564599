"""Simulated devices: terminal, pipes, script files, output and error streams.

The raw devices are ours; everything above them (BufferedReader/Writer,
TextIOWrapper, print, input, argparse) is the real interpreter.  ``sys.stdin``
and friends are proxies that lead to the devices of the task holding the baton.
"""
import builtins
import errno
import io
import sys
import traceback

from .mon import K

_real_open = builtins.open
_real_io_open = io.open


class Proxy(object):
    """Stands for sys.stdin/stdout/stderr; delegates to the current task."""

    def __init__(self, name, real):
        self.__dict__["_name"] = name
        self.__dict__["_real"] = real

    def _target(self):
        return K.cur.ctx.get(self._name) or self._real

    def __getattr__(self, a):
        return getattr(self._target(), a)

    def __setattr__(self, a, v):
        setattr(self._target(), a, v)

    def __iter__(self):
        return iter(self._target())

    def __next__(self):
        return next(self._target())

    def __enter__(self):
        return self._target().__enter__()

    def __exit__(self, *a):
        return self._target().__exit__(*a)


def install_proxies():
    sys.stdin = Proxy("stdin", sys.stdin)
    sys.stdout = Proxy("stdout", sys.stdout)
    sys.stderr = Proxy("stderr", sys.stderr)
    builtins.open = _sim_open
    io.open = _sim_open


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    files = K.cur.ctx.get("files")
    key = file
    if files is not None and not isinstance(file, int):
        try:
            import os
            key = os.fspath(file)
        except TypeError:
            key = None
        if isinstance(key, bytes):
            key = key.decode()
    if files is not None and isinstance(key, str) and key in files:
        f = files[key]
        if isinstance(f, OSError):
            raise f
        buf = io.BufferedReader(f)
        if "b" in mode:
            return f if buffering == 0 else buf
        return io.TextIOWrapper(buf, encoding=encoding or "utf-8",
                                errors=errors, newline=newline)
    return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


class Log(object):
    """Common event log of one session."""

    def __init__(self):
        self.reads = []          # (bytes taken so far, out bytes, err bytes)
        self.fired = []          # faults that really happened
        self.out = None
        self.err = None


class RawIn(io.RawIOBase):
    """An input device.

    ``events`` is a list (or an iterator producing) of
      ("data", bytes)  one read delivers (at most) these bytes
      ("eintr",)       the read is interrupted by a signal (InterruptedError)
      ("intr",)        KeyboardInterrupt while waiting
      ("err", errno)   OSError
      ("eof",)         end of file seen once (a terminal's Ctrl-D)
      ("wait", x)      nothing arrives as long as x.blocked(task)
    After the last event every read reports end of file.
    """

    def __init__(self, events, log, tty=False, sticky_error=True):
        io.RawIOBase.__init__(self)
        self.events = iter(events)
        self.rest = b""
        self.log = log
        self.tty = tty
        self.taken = 0
        self.dead = None
        self.ended = False

    def readable(self):
        return True

    def isatty(self):
        return self.tty

    def readinto(self, b):
        K.tick()
        log = self.log
        log.reads.append((self.taken,
                          len(log.out.delivered) if log.out else 0,
                          len(log.err.delivered) if log.err else 0))
        if len(log.reads) > 20000:
            raise RuntimeError("input device: too many reads")
        if self.dead is not None:
            raise OSError(self.dead, "simulated input error")
        if not self.rest:
            busy, K.busy = K.busy, True
            try:
                ev = next(self.events, ("eof",)) if not self.ended else ("eof",)
            finally:
                K.busy = busy
            if ev[0] == "wait":
                log.fired.append("stalled-read")
                if ev[1].blocked(K.cur):
                    K.block(ev[1], -1)
                return self.readinto(b)
            kind = ev[0]
            if kind == "data":
                self.rest = ev[1]
            elif kind == "eintr":
                log.fired.append("eintr-read")
                raise InterruptedError(errno.EINTR, "simulated EINTR")
            elif kind == "intr":
                log.fired.append("intr-read")
                raise KeyboardInterrupt()
            elif kind == "err":
                log.fired.append("err-read-%s" % errno.errorcode[ev[1]])
                self.dead = ev[1]
                raise OSError(ev[1], "simulated input error")
            elif kind == "eof":
                if not self.tty:
                    self.ended = True
                return 0
        d = self.rest[:len(b)]
        self.rest = self.rest[len(d):]
        b[:len(d)] = d
        self.taken += len(d)
        return len(d)


class RawOut(io.RawIOBase):
    """An output device.

    ``faults``: list of dicts
      {"at": k, "err": errno, "heal": m|None}  byte k cannot be written (the
            device accepts what is before it); after m failures it heals
      {"nth": n, "kind": "short", "take": t}   n-th write accepts t bytes
      {"nth": n, "kind": "eintr"|"intr"}       n-th write is interrupted
    """

    def __init__(self, log, faults=(), tty=False, slot="out"):
        io.RawIOBase.__init__(self)
        self.delivered = bytearray()
        self.faults = [dict(f) for f in faults]
        self.n = 0
        self.tty = tty
        self.log = log
        self.intr_next = False     # raise KeyboardInterrupt at next write
        setattr(log, slot, self)

    def writable(self):
        return True

    def isatty(self):
        return self.tty

    def write(self, b):
        K.tick()
        data = bytes(b)
        self.n += 1
        if not data:
            return 0
        if self.intr_next:
            self.intr_next = False
            self.log.fired.append("intr-write")
            raise KeyboardInterrupt()
        take = len(data)
        for f in list(self.faults):
            if "at" in f:
                room = f["at"] - len(self.delivered)
                if room < take:
                    if room > 0:
                        take = room
                    else:
                        self.log.fired.append("err-write-%s" % errno.errorcode[f["err"]])
                        if f.get("heal") is not None:
                            f["heal"] -= 1
                            if f["heal"] <= 0:
                                self.faults.remove(f)
                        raise OSError(f["err"], "simulated output error")
            elif f["nth"] == self.n:
                self.faults.remove(f)
                if f["kind"] == "short":
                    if f["take"] < take:
                        take = max(1, f["take"])
                        self.log.fired.append("short-write")
                elif f["kind"] == "eintr":
                    self.log.fired.append("eintr-write")
                    raise InterruptedError(errno.EINTR, "simulated EINTR")
                elif f["kind"] == "intr":
                    self.log.fired.append("intr-write")
                    raise KeyboardInterrupt()
        self.delivered += data[:take]
        return take


class Session(object):
    """The three standard streams of one simulated process."""

    def __init__(self, events=(), tty=False, out_faults=(), files=None,
                 out_tty=None, err_faults=()):
        self.log = Log()
        self.rawout = RawOut(self.log, out_faults, tty if out_tty is None else out_tty)
        self.rawerr = RawOut(self.log, err_faults, True, "err")
        self.rawin = RawIn(events, self.log, tty)
        self.stdin = io.TextIOWrapper(io.BufferedReader(self.rawin), "utf-8")
        self.stdout = io.TextIOWrapper(io.BufferedWriter(self.rawout), "utf-8",
                                       line_buffering=self.rawout.tty)
        self.stderr = io.TextIOWrapper(io.BufferedWriter(self.rawerr), "utf-8",
                                       errors="backslashreplace", line_buffering=True)
        self.files = files or {}
        self.proc_stdin = self.stdin
        self.side = None
        self.status = None
        self.exc = None

    def attach(self, task=None):
        c = (task or K.cur).ctx
        c["stdin"], c["stdout"], c["stderr"] = self.proc_stdin, self.stdout, self.stderr
        c["files"] = self.files

    def other_stdin(self, kind):
        """The process has a standard input which the script doesn't come from."""
        self.side = RawIn([("data", b"set 0 0 7\nstack\nexit\n")], Log(), kind == "tty")
        self.proc_stdin = io.TextIOWrapper(io.BufferedReader(self.side), "utf-8")
        if kind == "closed":
            self.proc_stdin.close()

    @staticmethod
    def detach(task=None):
        c = (task or K.cur).ctx
        for k in ("stdin", "stdout", "stderr", "files"):
            c.pop(k, None)

    @property
    def out(self):
        return bytes(self.rawout.delivered).decode("utf-8", "replace")

    @property
    def err(self):
        return bytes(self.rawerr.delivered).decode("utf-8", "replace")

    def run(self, fn, passthrough=()):
        """Run fn like a process would and derive the exit status."""
        try:
            fn()
            self.status = 0
        except SystemExit as e:
            self.exc = e
            if e.code is None:
                self.status = 0
            elif isinstance(e.code, int):
                self.status = e.code & 0xff
            else:
                self._err("%s\n" % e.code)
                self.status = 1
        except passthrough:
            raise
        except KeyboardInterrupt as e:
            self.exc = e
            self._err("KeyboardInterrupt\n")
            self.status = 130
        except BaseException as e:
            if type(e).__name__ == "StepLimit":
                raise
            self.exc = e
            self._err("".join(traceback.format_exception_only(type(e), e)))
            self.status = 1
        try:
            self.stdout.flush()
        except KeyboardInterrupt:
            self.status = self.status or 130
        except Exception as e:
            self._err("Exception ignored: %r\n" % (e,))
            self.status = 120
        return self.status

    def _err(self, s):
        try:
            self.stderr.write(s)
            self.stderr.flush()
        except Exception:
            pass


def run_main(session, argv):
    """``python -m sudokutools ARGV`` on the session's devices."""
    import sudokutools.__main__ as m
    old = sys.argv
    sys.argv = ["sudokutools"] + list(argv)
    session.attach()
    try:
        return session.run(m.main)
    finally:
        session.detach()
        sys.argv = old


def chunks(data, cuts):
    """Split bytes at the given offsets."""
    cuts = sorted({c for c in cuts if 0 < c < len(data)})
    pos = 0
    out = []
    for c in cuts + [len(data)]:
        if c > pos:
            out.append(("data", data[pos:c]))
            pos = c
    return out
