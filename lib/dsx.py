"""Helpers shared by the checks; only the public Python interface of the simulator is used."""
import devsim as ds
import math, struct
from harness import Violation, need


def reset():
    ds.reset_devsim()


def raises(fn, **kw):
    """Returns the message if the call raises the simulator's own error, None if it succeeds."""
    try:
        fn(**kw)
    except ds.error as e:
        return str(e) or 'error'
    return None


def bits(x):
    return struct.pack('<d', float(x))


def same_bits(a, b):
    return len(a) == len(b) and all(bits(x) == bits(y) for x, y in zip(a, b))


def close(a, b, rel, absol=0.0):
    return abs(a - b) <= absol + rel * max(abs(a), abs(b))


def vclose(a, b, rel, absol=0.0, scale=None):
    if len(a) != len(b):
        return False
    s = scale if scale is not None else 0.0
    return all(abs(x - y) <= absol + rel * max(abs(x), abs(y), s) for x, y in zip(a, b))


def worst(a, b):
    if len(a) != len(b):
        return 'length %d vs %d' % (len(a), len(b))
    k = max(range(len(a)), key=lambda i: (abs(a[i] - b[i]) if not (math.isnan(a[i]) or math.isnan(b[i])) else math.inf), default=None)
    return 'index %s: got %r expected %r' % (k, a[k], b[k]) if k is not None else 'empty'
