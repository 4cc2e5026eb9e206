"""Pickle framing shared by the driver (CPython 3.12) and the worker (PyPy 3.9).

Only builtin types cross the pipe; numpy arrays travel as ('__nd__', dtype, shape, bytes).
"""
import pickle
import struct

import numpy as np


def enc(o):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('__objnd__', [enc(x) for x in o.ravel().tolist()], tuple(int(s) for s in o.shape))
        a = np.ascontiguousarray(o)
        return ('__nd__', a.dtype.str, tuple(int(s) for s in o.shape), a.tobytes())
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, tuple):
        return ('__tuple__', [enc(x) for x in o])
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return o
    return ('__repr__', repr(type(o)), repr(o)[:200])


def dec(o):
    if isinstance(o, tuple):
        if o[0] == '__nd__':
            return np.frombuffer(o[3], dtype=np.dtype(o[1])).reshape(o[2]).copy()
        if o[0] == '__objnd__':
            return [dec(x) for x in o[1]]
        if o[0] == '__tuple__':
            return tuple(dec(x) for x in o[1])
        return o
    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        return {k: dec(v) for k, v in o.items()}
    return o


def send(f, obj):
    b = pickle.dumps(enc(obj), protocol=4)
    f.write(struct.pack('<Q', len(b)) + b)
    f.flush()


def recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError('peer closed the pipe')
    n = struct.unpack('<Q', h)[0]
    b = b''
    while len(b) < n:
        c = f.read(n - len(b))
        if not c:
            raise EOFError('peer closed the pipe mid-message')
        b += c
    return dec(pickle.loads(b))
