"""A process that has never made a model, forked again for each request: what a model gives when it is
the only one that ever existed."""
import os
import pickle
import signal
import struct

_conn = [None]


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack(">I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    h = _read(fd, 4)
    return pickle.loads(_read(fd, struct.unpack(">I", h)[0]))


def _read(fd, n):
    out = b""
    while len(out) < n:
        x = os.read(fd, n - len(out))
        if not x:
            raise EOFError
        out += x
    return out


def start():
    """To be called before any model is made."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork():
        os.close(r1)
        os.close(w2)
        _conn[0] = (w1, r2)
        return
    try:
        os.close(w1)
        os.close(r2)
        while True:
            req = _read_request(r1)
            if req is None:
                break
            pid = os.fork()
            if not pid:
                signal.setitimer(signal.ITIMER_PROF, 0)
                try:
                    _send(w2, _answer(req))
                except BaseException as ex:
                    _send(w2, ("error", repr(ex)))
                os._exit(0)
            os.waitpid(pid, 0)
    finally:
        os._exit(0)


def _read_request(fd):
    try:
        return _recv(fd)
    except EOFError:
        return None


def _answer(req):
    from . import spec as S
    from .observe import observe, lkey
    sp, order = req
    m = S.build(sp, order)
    m.update_simulation()
    return ("ok", observe(m), {lkey(x): x.effective_metric(m) for x in m.rsvp_lsp_objects})


def alone(sp, order):
    """("ok", what is observed, {LSP: effective metric}) or ("error", text) of a model made in a process of its own."""
    w, r = _conn[0]
    _send(w, (sp, order))
    return _recv(r)
