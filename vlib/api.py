"""Thin adapters between JSON cases and the package's public interface."""
import copy
import os

import numpy as np

from vlib import bootstrap  # noqa: F401
from bicycleparameters import parameter_sets as ps
from bicycleparameters import models as md
from bicycleparameters import bicycle as bk

PAR_KEYS = {
    'Meijaard2007': list(ps.Meijaard2007ParameterSet.par_strings),
}


def mset(p, rider=True):
    return ps.Meijaard2007ParameterSet(dict(p), rider)


def mmodel(p, rider=True):
    return md.Meijaard2007Model(mset(p, rider))


def fbset(p, rider=True):
    return ps.Meijaard2007WithFeedbackParameterSet(dict(p), rider)


def fbmodel(p):
    return md.Meijaard2007WithFeedbackModel(fbset(p))


def leanmodel(p):
    return md.MooreRiderLean2012Model(ps.MooreRiderLean2012ParameterSet(
        dict(p)))


def as_given(val, how):
    """A list of floats in one of the accepted array-like forms."""
    if how == 'list':
        return list(val)
    if how == 'tuple':
        return tuple(val)
    if how == 'array':
        return np.array(val, dtype=float)
    if how == 'readonly':
        a = np.array(val, dtype=float)
        a.flags.writeable = False
        return a
    raise ValueError(how)


HOW = ['list', 'tuple', 'array', 'readonly']


def as_scalar(val, how):
    if how == 'int' and float(val).is_integer():
        return int(val)
    if how == 'npfloat':
        return np.float64(val)
    if how == 'npint' and float(val).is_integer():
        return np.int64(val)
    return float(val)


SHOW = ['float', 'int', 'npfloat', 'npint']


def write_bike(root, name, benchmark=None, measured=None, fmt='%r'):
    """Creates <root>/bicycles/<name>/ with the given parameter files."""
    d = os.path.join(root, 'bicycles', name)
    if benchmark is not None:
        os.makedirs(os.path.join(d, 'Parameters'), exist_ok=True)
        write_par(os.path.join(d, 'Parameters', name + 'Benchmark.txt'),
                  benchmark)
    if measured is not None:
        os.makedirs(os.path.join(d, 'RawData'), exist_ok=True)
        write_par(os.path.join(d, 'RawData', name + 'Measured.txt'),
                  measured)
    os.makedirs(d, exist_ok=True)
    return d


def write_par(path, par):
    with open(path, 'w') as f:
        for k, v in par.items():
            if isinstance(v, (list, tuple)):
                f.write('%s = %s\n' % (k, ', '.join(
                    '%r+/-%r' % tuple(x) if isinstance(x, (list, tuple))
                    else repr(x) for x in [v]) if len(v) == 2 and
                    not isinstance(v[0], (list, tuple)) else
                    ', '.join('%r+/-%r' % tuple(x) for x in v)))
            else:
                f.write('%s = %r\n' % (k, v))


def bicycle_from(root, benchmark, name='Testbike', **kw):
    from bicycleparameters.main import Bicycle
    write_bike(root, name, benchmark)
    return Bicycle(name, pathToData=root, **kw)


def snapshot(par):
    return copy.deepcopy(dict(par))
