"""Crash and restart: code that continues in a process which has never seen the world it restores.

A server is forked before any world exists. Each request runs a function of a property module in a fresh child
of that server, so nothing of the crashed process survives except what was written to files.
"""
import importlib, os, pickle, select, signal, socket, struct, sys, traceback

ADDR = None


def _read(c, n):
    b = b""
    while len(b) < n:
        x = c.recv(n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _send(c, o):
    b = pickle.dumps(o)
    c.sendall(struct.pack("<Q", len(b)) + b)


def _recv(c):
    return pickle.loads(_read(c, struct.unpack("<Q", _read(c, 8))[0]))


def start(ux):
    """Forks the server; must be called before any world has been created."""
    global ADDR
    ADDR = "\0dst-zygote-%d" % os.getpid()
    s = socket.socket(socket.AF_UNIX)
    s.bind(ADDR)
    s.listen(64)
    parent = os.getpid()
    if os.fork():
        s.close()
        return
    try:
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        os.environ["DST_WORKER"] = "1"
        dn = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1) + (() if os.environ.get("DST_DEBUG") else (2,)):
            os.dup2(dn, fd)
        while os.getppid() == parent:
            if not select.select([s], [], [], 1.0)[0]:
                continue
            c, _ = s.accept()
            if os.fork() == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s.close()
                try:
                    mod, fn, args = _recv(c)
                    try:
                        r = (True, getattr(importlib.import_module(mod), fn)(ux, *args))
                    except BaseException as e:
                        r = (False, (getattr(e, "kind", None) or "exception:%s" % type(e).__name__, getattr(e, "msg", None) or str(e)[:300], traceback.format_exc()[-1500:]))
                    _send(c, r)
                finally:
                    os._exit(0)
            c.close()
    finally:
        os._exit(0)


def call(mod, fn, *args):
    """Runs mod.fn(ux, *args) in a new process; returns (ok, result)."""
    c = socket.socket(socket.AF_UNIX)
    c.connect(ADDR)
    try:
        _send(c, (mod, fn, args))
        return _recv(c)
    finally:
        c.close()
