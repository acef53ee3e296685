"""C14: benchmark parameters from workshop measurements."""
import glob
import math
import os

from hypothesis import strategies as st
from uncertainties import ufloat

from vlib import api, gen, measure
from vlib.core import Registry, close, equal, expect
from bicycleparameters.main import (Bicycle, calculate_benchmark_from_measured,
                                    is_fork_split, get_parts_in_parameters)

R = Registry('C14')
QUICK = 2


def nominal(x):
    return float(getattr(x, 'nominal_value', x))


def compare(got, want, what, tol):
    # (the sets may be completed by values that follow from these)
    missing = set(want) - set(got)
    expect(not missing, '{}: missing {}', what, sorted(missing))
    extra = set(got) - set(want)
    expect(not extra, '{}: unexpected {}', what, sorted(extra))
    for k, v in want.items():
        close(nominal(got[k]), v, what + ': ' + k, rtol=0,
              atol=tol*measure.scale_of(want, k))


def wrap(mp, kind):
    if kind == 'plain':
        return dict(mp)
    out = {}
    for k, v in mp.items():
        out[k] = v if k in ('nR', 'nF') or (kind == 'mixed' and
                                            len(k) % 2) else \
            ufloat(v, 1e-3*abs(v) + 1e-5)
    return out


RULE = 'split fork, flywheel or more than three orientations of the frame'


def interesting(b):
    return 'S' in b or 'D' in b or len(b['B']['hang']) > 3


@R.prop(lambda: st.tuples(measure.bikes(True), st.sampled_from(
    ['plain', 'uncertain', 'mixed']), st.booleans()),
        quick=500, thorough=8000, shards=2, rule=RULE)
def known_bicycle(case, ctx):
    b, kind, reverse = case
    mp, want = measure.forward(b)
    given = wrap(mp, kind)
    if reverse:
        given = dict(reversed(list(given.items())))
    keep = dict(given)
    equal(bool(is_fork_split(given)), 'S' in b, 'fork is split')
    par, extras = calculate_benchmark_from_measured(given)
    compare(par, want, 'benchmark parameters', 1e-9)
    equal(sorted(given), sorted(keep), 'measurements afterwards')
    for k in keep:
        expect(given[k] is keep[k], 'measurement {} was changed', k)
    # the parts that were hung
    parts = [p for p in 'BGSH' if p in b]
    for name in ('slopes', 'intercepts', 'betas', 'pendulumInertias'):
        equal(sorted(extras[name]), sorted(parts), 'parts in ' + name)
    for p in parts:
        for i, deg in enumerate(b[p]['hang']):
            m = nominal(extras['slopes'][p][i])
            c = nominal(extras['intercepts'][p][i])
            close(m*want['x' + p] + c, want['z' + p],
                  'line %d of part %s at its mass centre' % (i + 1, p),
                  atol=1e-9*(1 + m*m))
            close(nominal(extras['betas'][p][i]), math.radians(deg),
                  'orientation', atol=1e-11)
            be = math.radians(deg)
            I = b[p]['I']
            J = (math.cos(be)**2*I[0] - 2*math.cos(be)*math.sin(be)*I[3] +
                 math.sin(be)**2*I[2])
            close(nominal(extras['pendulumInertias'][p][i]), J,
                  'moment of inertia about the pendulum axis', rtol=1e-10,
                  atol=1e-12)
    equal(sorted(get_parts_in_parameters(par)),
          sorted(k[1] for k in want if k[0] == 'm'), 'parts of the bicycle')
    ctx.label(kind, 'split' if 'S' in b else 'whole',
              'flywheel' if 'D' in b else 'no flywheel',
              'direct' if 'w' in mp else 'offsets')
    ctx.nontrivial(interesting(b))


@R.prop(lambda: st.tuples(measure.bikes(True), st.lists(
    gen.fl(-1.0, 1.0), min_size=16, max_size=16), st.sampled_from(
        ['plain', 'uncertain'])), quick=400, thorough=8000, rule=RULE)
def measurements_that_disagree(case, ctx):
    b, noise, kind = case
    mp, want = measure.forward(b)
    measure.disturb(mp, noise)
    axes = {}
    want = measure.evaluate(mp, axes)
    # (measurements in disarray may describe nothing at all)
    par, extras = calculate_benchmark_from_measured(wrap(mp, kind))
    compare(par, want, 'benchmark parameters', 1e-8)
    for p in axes:
        for name in ('slopes', 'intercepts', 'betas', 'pendulumInertias'):
            equal(len(extras[name][p]), len(axes[p]), 'number of ' + name)
        for i, (n, off, J, be) in enumerate(axes[p]):
            m = nominal(extras['slopes'][p][i])
            # the measured line, at two places
            for x in (0.0, 1.0):
                close(n @ (x, m*x + nominal(extras['intercepts'][p][i])),
                      off, 'line %d of part %s' % (i + 1, p),
                      atol=1e-9*(1 + m*m))
            close(nominal(extras['betas'][p][i]), be, 'orientation',
                  atol=1e-11)
            close(nominal(extras['pendulumInertias'][p][i]), J,
                  'moment of inertia about the pendulum axis', rtol=1e-10,
                  atol=1e-12)
    ctx.label(kind)
    ctx.nontrivial(interesting(b))


@R.prop(lambda: st.tuples(measure.bikes(True), st.sampled_from(
    ['exact', 'uncertain', 'repeated', 'decorated']), st.sampled_from(
        ['fresh', 'force', 'saved']), st.booleans()),
        quick=200, thorough=3000, rule=RULE)
def from_files(case, ctx):
    """A bicycle object made from a file of measurements."""
    b, style, mode, trailing = case
    mp, want = measure.forward(b)
    lines = []
    for k, v in mp.items():
        if style == 'exact' or k in ('nR', 'nF'):
            s = '%s = %r' % (k, v)
        elif style == 'uncertain':
            s = '%s = %r+/-%r' % (k, v, 0.002*abs(v) + 1e-5)
        elif style == 'repeated':
            d = 0.001*abs(v)
            s = '%s = %r+/-%r, %r+/-%r,%r+/-%r' % (
                k, v - d, 0.001, v + d, 0.001, v, 0.002)
        else:
            s = ' %s=%r +/- %r # [m] by hand' % (k, v, 0.001)
            lines.append('# the next one is ' + k)
        lines.append(s)
    root = ctx.tmp
    name = 'Testbike'
    d = api.write_bike(root, name)
    os.makedirs(os.path.join(d, 'RawData'))
    raw = os.path.join(d, 'RawData', name + 'Measured.txt')
    text = '\n'.join(lines) + ('\n' if trailing else '')
    with open(raw, 'w') as f:
        f.write(text)
    tol = 1e-8
    if mode == 'fresh':
        bike = Bicycle(name, pathToData=root)
    else:
        other = dict(want, mB=want['mB'] + 1.0, xB=9.0)
        api.write_bike(root, name, benchmark=other)
        bike = Bicycle(name, pathToData=root, forceRawCalc=mode == 'force')
        if mode == 'saved':
            want = other
    compare(bike.parameters['Benchmark'], want, 'benchmark parameters', tol)
    for k, v in mp.items():
        close(nominal(bike.parameters['Measured'][k]), v,
              'measured ' + k, rtol=1e-12)
        if style == 'uncertain' and k not in ('nR', 'nF'):
            close(bike.parameters['Measured'][k].std_dev,
                  0.002*abs(v) + 1e-5, 'uncertainty of ' + k, rtol=1e-12)
        if style == 'repeated' and k not in ('nR', 'nF'):
            close(bike.parameters['Measured'][k].std_dev,
                  math.sqrt(6e-6)/3, 'uncertainty of ' + k, rtol=1e-9)
    expect(not bike.hasRider, 'bicycle has a rider when loaded')
    equal(hasattr(bike, 'extras'), mode != 'saved', 'pendulum data there')
    with open(raw) as f:
        equal(f.read(), text, 'file of measurements afterwards')
    if mode == 'fresh':
        equal(os.path.isdir(os.path.join(d, 'Parameters')), False,
              'parameters written unasked')
    ctx.label(style, mode)
    ctx.nontrivial(interesting(b))


# the measurements of real bicycles that come with the package: any set near
# one of them is one somebody could have taken
SHIPPED = {}
for _path in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'data', 'measured', '*.txt'))):
    with open(_path) as _f:
        SHIPPED[os.path.basename(_path)[:-len('Measured.txt')]] = \
            _f.read().splitlines()


@st.composite
def near_shipped(draw):
    return {'of': draw(st.sampled_from(sorted(SHIPPED))),
            'noise': draw(st.lists(gen.fl(-1.0, 1.0), min_size=12,
                                   max_size=24)),
            'size': draw(st.sampled_from([0.0, 1.0, 1.0, 3.0])),
            'drop': draw(st.sampled_from(['none', 'none', 'some', 'all'])),
            'order': draw(st.sampled_from(['kept', 'reversed', 'sorted',
                                           'rotated'])),
            'bits': draw(st.integers(0, 2**20 - 1))}


@R.prop(near_shipped, quick=160, thorough=3000,
        rule='numbers changed, or uncertainties left out of some')
def near_shipped_measurements(case, ctx):
    """Files like the shipped ones: repeated values, comments, integers,
    measurements of other things, values without uncertainty."""
    mp, text, n = {}, [], 0
    for line in SHIPPED[case['of']]:
        body = line.split('#')[0]
        if '=' not in body:
            text.append(line)
            continue
        key, right = [q.strip() for q in body.split('=')]
        vals, words = [], []
        drop = case['drop'] == 'all' or (case['drop'] == 'some' and
                                         case['bits'] >> (n % 20) & 1)
        for word in right.split(','):
            v, _, std = word.strip().partition('+/-')
            v = float(v)
            if std:
                z = case['noise'][n % len(case['noise'])]
                v = float(repr(v + case['size']*z*float(std)))
                n += 1
            vals.append(v)
            words.append(repr(v) + ('+/-' + std if std and not drop else ''))
        if std and vals[0] == int(vals[0]) and not drop:
            words[0] = '%d+/-%s' % (vals[0], std)
        mp[key] = math.fsum(vals)/len(vals)
        text.append(key + ' = ' + ', '.join(words))
    if case['order'] == 'reversed':
        text.reverse()
    elif case['order'] == 'sorted':
        text.sort()
    elif case['order'] == 'rotated':
        k = case['bits'] % len(text)
        text = text[k:] + text[:k]
    want = measure.evaluate(mp)
    name = 'Near'
    d = api.write_bike(ctx.tmp, name)
    os.makedirs(os.path.join(d, 'RawData'))
    with open(os.path.join(d, 'RawData', name + 'Measured.txt'), 'w') as f:
        f.write('\n'.join(text) + '\n')
    bike = Bicycle(name, pathToData=ctx.tmp)
    equal(sorted(bike.parameters['Measured']), sorted(mp),
          'names of the measurements')
    for k, v in mp.items():
        close(nominal(bike.parameters['Measured'][k]), v, 'measured ' + k,
              rtol=1e-12, atol=1e-15)
    compare(bike.parameters['Benchmark'], want, 'benchmark parameters', 1e-8)
    ctx.label(case['of'], case['drop'], case['order'])
    ctx.nontrivial(case['size'] > 0 or case['drop'] != 'none')
