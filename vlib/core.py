"""Property registry, oracle helpers and the per-case context."""
import json
import os
import shutil
import tempfile

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """This case is outside the property's domain (counted, not a pass)."""


class Prop:
    def __init__(self, name, strategy, check, quick, thorough, rule,
                 examples=(), shards=1, weight=1.0):
        self.name = name
        self.strategy = strategy      # zero-argument callable -> strategy
        self.check = check            # check(case, ctx)
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = list(examples)
        self.shards = shards


class Registry:
    """One per check module: ``R = Registry('C01')`` then ``@R.prop(...)``."""

    def __init__(self, pid):
        self.pid = pid
        self.props = []
        self.probes = {}

    def prop(self, strategy, quick=300, thorough=None, rule='', examples=(),
             shards=1):
        def deco(fn):
            if any(p.name == fn.__name__ for p in self.props):
                raise RuntimeError('duplicate prop ' + fn.__name__)
            self.props.append(Prop(fn.__name__, strategy, fn, quick,
                                   thorough or quick*8, rule, examples,
                                   shards))
            return fn
        return deco

    def probe(self, key):
        def deco(fn):
            self.probes[key] = fn
            return fn
        return deco


class Ctx:
    """What a check may record about the case it is looking at."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self._tmp = None

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='case-',
                                         dir=os.environ['VERIF_SCRATCH'])
            # (a path with blanks, periods and the names of data folders)
            self._path = os.path.join(self._tmp, 'bicycles', 'All riders.d')
            os.makedirs(self._path)
        return self._path

    def cleanup(self):
        if self._tmp is not None:
            assert self._tmp.startswith(os.environ['VERIF_SCRATCH'] + os.sep)
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def fail(msg):
    raise Violation(msg)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def _short(x):
    s = repr(x)
    return s if len(s) < 600 else s[:600] + '...'


def numeric(x, what='value', shape=None, kind='real'):
    """Converts a result to a float/complex ndarray or reports it."""
    try:
        if kind == 'complex':
            a = np.array(x, dtype=complex)
        else:
            a = np.asarray(x)
            if np.iscomplexobj(a):
                if np.any(a.imag != 0):
                    raise Violation('%s is complex: %s' % (what, _short(x)))
                a = a.real
            a = np.array(a, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation('%s is not numeric (%s): %s' % (what, e, _short(x)))
    if shape is not None and a.shape != tuple(shape):
        raise Violation('%s has shape %s, expected %s: %s' % (
            what, a.shape, tuple(shape), _short(x)))
    return a


def close(actual, expected, what, rtol=1e-9, atol=0.0, shape=True,
          kind='real'):
    """|actual - expected| <= atol + rtol*|expected|, elementwise.

    ``atol`` may be an array.  Shapes must match unless ``shape`` is False.
    """
    e = np.asarray(expected)
    e = np.array(e, dtype=complex if kind == 'complex' else float)
    a = numeric(actual, what, kind=kind)
    if shape and a.shape != e.shape:
        raise Violation('%s has shape %s, expected %s' % (what, a.shape,
                                                          e.shape))
    if not np.all(np.isfinite(a)):
        raise Violation('%s is not finite: %s (expected %s)' % (
            what, _short(a), _short(e)))
    err = np.abs(a - e)
    # (numbers below the smallest normal one have no relative precision)
    tol = atol + rtol*np.abs(e) + 1e-300
    if np.any(err > tol):
        i = np.unravel_index(np.argmax(err - tol), err.shape) if err.shape \
            else ()
        raise Violation(
            '%s differs at %s: got %r, expected %r (error %.3g, tolerance '
            '%.3g)\n got      %s\n expected %s' % (
                what, i, a[i].item(), np.broadcast_to(e, a.shape)[i].item(),
                err[i], np.broadcast_to(tol, err.shape)[i],
                _short(a.tolist()), _short(e.tolist())))


def same(actual, expected, what):
    if actual != expected or type(actual) is not type(expected):
        raise Violation('%s: got %s, expected %s' % (
            what, _short(actual), _short(expected)))


def equal(actual, expected, what):
    if not (actual == expected):
        raise Violation('%s: got %s, expected %s' % (
            what, _short(actual), _short(expected)))


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    raise Violation('%s: expected %s, got result %s' % (
        what, exc, _short(r)))


def canonical_json(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)
