"""Running something in a forked child, so that it starts from a known state of the implementation."""
import os
import pickle
import select
import signal
import traceback


class ChildDied(Exception):
    pass


def forked(fn, timeout=60.0):
    """fn() in a child process; its (picklable) value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException:
                out = (False, traceback.format_exc())
            b = pickle.dumps(out)
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    try:
        while True:
            ready, _, _ = select.select([r], [], [], timeout)
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise ChildDied(f"no answer within {timeout:.0f} s")
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not chunks:
        raise ChildDied("the process died")
    ok, value = pickle.loads(b"".join(chunks))
    if not ok:
        raise RuntimeError(value)
    return value


def neutral_warm(p, texts):
    """Compiles the lazily built scanners of the parsing library, if possible without running any code of pycep."""
    found = library_objects(p)
    if not found:
        # built when it is used for the first time
        try:
            p.parse(text="")
        except Exception:
            pass
        found = library_objects(p)
    for x in found:
        for t in texts:
            try:
                x.parse(t)
            except Exception:
                pass


def library_objects(p):
    """The Lark objects of a parser, whatever the attribute that holds them is called."""
    import gc
    import lark
    level = [p]
    for _ in range(4):
        level = [y for x in level for y in gc.get_referents(x) if not isinstance(y, (type, str)) and not callable(y)]
        found = {id(x): x for x in level if type(x) is lark.Lark}
        if found:
            return list(found.values())
    return []


def outcome(fn):
    """What a call answers, in a form that can be compared and pickled: ('value', canonical text) or ('error', ...)."""
    from .core import canon
    try:
        v = fn()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return error(e)
    return ("value", canon(v))


def error(e):
    where = (getattr(e, "line", None), getattr(e, "column", None))
    inner = getattr(e, "orig_exc", None)
    msg = str(e) if type(e).__module__.split(".")[0] != "lark" else ""
    return ("error", type(e).__name__, where, msg, error(inner) if inner is not None else None)
