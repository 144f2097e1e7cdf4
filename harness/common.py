"""Shared helpers of the property modules: exact numbers, comparisons, model building."""
import json, math, os, sys, tempfile
from fractions import Fraction
import numpy as np


def q(r):
    """<<num, den>> of the specification -> Fraction"""
    return Fraction(r[0], r[1])


def f(r):
    return r[0] / r[1]


def vec(v):
    return np.array([x[0] / x[1] for x in v], dtype=float)


def mat(m, cols=None):
    if len(m) == 0:
        return np.zeros((0, cols or 0))
    a = np.array([[x[0] / x[1] for x in row] for row in m], dtype=float)
    return a.reshape(len(m), -1)


def lit(r):
    """a rational as text of the model language"""
    n, d = r
    if d == 1:
        return str(n) if n >= 0 else "(-%d)" % -n
    return "(%d/%d)" % (n, d)


def close(a, b, tol=1e-8, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    s = scale if scale is not None else max(1.0, float(np.nanmax(np.abs(b))) if b.size else 1.0)
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(a - b) <= tol * s))


def two_d(a, rows, cols):
    """policy arrays: a single column may be given as a vector"""
    a = np.asarray(a, dtype=float)
    return a.reshape(rows, cols) if a.size == rows * cols and (a.ndim == 2 or cols == 1 or rows == 1) else a


def diff(name, got, want, tol=1e-8, scale=None):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if not close(got, want, tol, scale):
        return "%s:\n got  %s\n want %s" % (name, np.array2string(got, precision=8, max_line_width=150),
                                          np.array2string(want, precision=8, max_line_width=150))
    return None


def raises(fn, *a, **k):
    """the exception fn raises, or None and its value"""
    try:
        return None, fn(*a, **k)
    except Exception as e:          # noqa: BLE001 - any exception is a rejection
        return e, None


def write_tmp(text, suffix=".mod"):
    fd, path = tempfile.mkstemp(suffix=suffix)
    with os.fdopen(fd, "w") as h:
        h.write(text)
    return path


def load_text(text):
    """Model.from_path of a file holding text"""
    import pynare
    path = write_tmp(text)
    try:
        return pynare.Model.from_path(path)
    finally:
        os.unlink(path)


class Rng(object):
    """small deterministic generator (for rendering choices that do not affect meaning)"""
    def __init__(self, *seed):
        x = 2166136261
        for s in seed:
            for ch in str(s) + "/":
                x = ((x ^ ord(ch)) * 16777619) & 0xFFFFFFFF
        self.x = x or 1

    def next(self, m):
        self.x ^= (self.x << 13) & 0xFFFFFFFF
        self.x ^= self.x >> 17
        self.x ^= (self.x << 5) & 0xFFFFFFFF
        return self.x % m

    def pick(self, seq):
        return seq[self.next(len(seq))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.next(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq
