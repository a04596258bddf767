"""What a call may not change in its process: a comparable picture of it, and what it wrote to the standard streams."""
import atexit
import builtins
import codecs
import decimal
import gc
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import warnings


def _logger(x):
    return (x.level, x.disabled, x.propagate, tuple(map(repr, x.handlers)), tuple(map(repr, x.filters)))


def _umask():
    m = os.umask(0)
    os.umask(m)
    return m


def _fds():
    out = {}
    for n in sorted(map(int, os.listdir("/proc/self/fd"))):
        try:
            out[n] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass  # the descriptor of the listing itself
    return out


def _children():
    try:
        return os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        return None


PARTS = {
    "open files": _fds,
    "working directory": os.getcwd,
    "environment": lambda: dict(os.environ),
    "umask": _umask,
    "recursion limit": sys.getrecursionlimit,
    "limit of digits": sys.get_int_max_str_digits,
    "switch interval": sys.getswitchinterval,
    "threads": lambda: sorted(f"{t.name} {t.daemon}" for t in threading.enumerate()),
    "child processes": _children,
    "signal handlers": lambda: {s.name: repr(signal.getsignal(s)) for s in signal.valid_signals() if isinstance(s, signal.Signals)},
    "timers": lambda: [signal.getitimer(t) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
    "blocked signals": lambda: sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
    "warning filters": lambda: list(map(repr, warnings.filters)),
    "show of warnings": lambda: warnings.showwarning,
    "logging": lambda: (logging.root.manager.disable, _logger(logging.root), {n: _logger(x) for n, x in sorted(logging.root.manager.loggerDict.items())
                                                                            if isinstance(x, logging.Logger) and (x.handlers or x.level or x.disabled or x.filters)}),
    "locale": lambda: locale.setlocale(locale.LC_ALL),
    "decimal context": lambda: repr(decimal.getcontext()),
    "random state": lambda: hash(random.getstate()),
    "garbage collector": lambda: (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count(), len(gc.callbacks)),
    "standard streams": lambda: (sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__),
    "hooks": lambda: (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.gettrace(), sys.getprofile(), sys.breakpointhook),
    "import path": lambda: (list(sys.path), list(map(repr, sys.meta_path)), list(map(repr, sys.path_hooks)), sys.dont_write_bytecode),
    "builtins": lambda: {k: id(v) for k, v in vars(builtins).items() if k != "_"},
    "exit functions": lambda: atexit._ncallbacks(),
    "error handlers": lambda: [codecs.lookup_error(n) for n in ("strict", "ignore", "replace", "surrogateescape", "backslashreplace")],
    "socket timeout": socket.getdefaulttimeout,
    "time zone": lambda: (time.tzname, time.timezone),
}


def snapshot():
    return {k: f() for k, f in PARTS.items()}


def changed(before, after):
    """None, or what changed."""
    for k in PARTS:
        if before[k] != after[k]:
            return f"{k}: {str(after[k])[:300]} instead of {str(before[k])[:300]}"
    return None


class Streams:
    """Redirects the descriptors of standard output and error into a file and tells what was written."""

    def __enter__(self):
        self.fd = os.memfd_create("streams")
        sys.stdout.flush()
        sys.stderr.flush()
        self.old = [os.dup(1), os.dup(2)]
        os.dup2(self.fd, 1)
        os.dup2(self.fd, 2)
        return self

    def written(self):
        sys.stdout.flush()
        sys.stderr.flush()
        n = os.lseek(self.fd, 0, os.SEEK_END)
        return os.pread(self.fd, n, 0)

    def __exit__(self, *_):
        sys.stdout.flush()
        sys.stderr.flush()
        for fd, o in zip((1, 2), self.old):
            os.dup2(o, fd)
            os.close(o)
        os.close(self.fd)
