"""C15: propagation of measurement uncertainty."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from uncertainties import ufloat, unumpy

from vlib import api, gen, measure, ref
from vlib.core import Registry, close, equal, expect, Skip
from bicycleparameters import inertia as it
from bicycleparameters import io as bio
from bicycleparameters.main import calculate_benchmark_from_measured

R = Registry('C15')
QUICK = 1


def gradient(f, x, keys):
    """Central differences of a function dict -> 1-d array, Richardson."""
    rows = []
    for k in keys:
        h = 2e-4*max(abs(x[k]), 0.05)

        def at(d):
            y = dict(x)
            y[k] = x[k] + d
            return np.asarray(f(y))
        a = (at(h) - at(-h))/(2*h)
        b = (at(h/2) - at(-h/2))/h
        rows.append((4*b - a)/3)
    return np.array(rows)


def std(x):
    return float(getattr(x, 'std_dev', 0.0))


def sigmas(draw, keys, x):
    """Some of the quantities are exact."""
    out = {}
    for k in keys:
        if draw(st.integers(0, 3)):
            out[k] = (abs(x[k]) + 0.01)*draw(gen.fl(1e-4, 0.02))
        else:
            out[k] = 0.0
    return out


@st.composite
def measured(draw):
    b = draw(measure.bikes())
    mp, _ = measure.forward(b)
    keys = [k for k in sorted(mp) if k not in ('nR', 'nF')]
    return [b, sigmas(draw, keys, mp), draw(st.lists(
        gen.fl(-1, 1), min_size=5, max_size=5))]


def prepare(b):
    mp, want = measure.forward(b)
    return mp, want


@R.prop(measured, quick=56, thorough=1200, shards=4,
        rule='split fork, flywheel or more than three orientations')
def from_measurements(case, ctx):
    """Every benchmark parameter carries the linearly propagated standard
    deviation of everything that was measured, correlations included."""
    b, sig, mix = case
    mp, want = prepare(b)
    names = sorted(want)
    keys = [k for k in sig if sig[k] > 0]
    if not keys:
        raise Skip()
    given = {k: ufloat(v, sig[k]) if sig.get(k) else v
             for k, v in mp.items()}
    par, _ = calculate_benchmark_from_measured(given)
    J = gradient(lambda y: [measure.evaluate(y)[n] for n in names], mp, keys)
    S = np.array([sig[k] for k in keys])[:, None]
    e = np.sqrt(((J*S)**2).sum(axis=0))
    for n, s in zip(names, e):
        close(std(par[n]), s, 'standard deviation of ' + n, rtol=3e-4,
              atol=1e-7*measure.scale_of(want, n)*S.max())
    # combinations: the parameters are correlated as they should be
    pick = [names[int(abs(m)*1e6) % len(names)] for m in mix]
    w = np.array([m + 0.1 for m in mix])
    comb = sum(float(c)*par[n] for c, n in zip(w, pick))
    g = (J*S)[:, [names.index(n) for n in pick]] @ w
    close(std(comb), math.sqrt((g*g).sum()),
          'standard deviation of a combination of ' + ' '.join(pick),
          rtol=1e-3, atol=1e-6*S.max()*sum(
              measure.scale_of(want, n) for n in pick))
    ctx.label('split' if 'S' in b else 'whole')
    ctx.nontrivial('S' in b or 'D' in b or len(b['B']['hang']) > 3)


@st.composite
def benchmark(draw):
    p = draw(gen.meijaard())
    keys = [k for k in sorted(p) if k != 'v']
    return [p, sigmas(draw, keys, p), draw(gen.fl(-8, 8))]


def entries(p, v):
    M, C1, K0, K2 = ref.meijaard(p)
    A, B = ref.state_matrices(M, C1, K0, K2, v, p['g'])
    return np.concatenate([np.ravel(m) for m in (M, C1, K0, K2, A, B)])


@R.prop(benchmark, quick=120, thorough=2500, shards=2,
        rule='most parameters are uncertain')
def of_the_equations_of_motion(case, ctx):
    p, sig, v = case
    keys = [k for k in sig if sig[k] > 0]
    given = {k: ufloat(x, sig[k]) if sig.get(k) else x for k, x in p.items()}
    mats = api.bk.benchmark_par_to_canonical(dict(given))
    mats = [unumpy.nominal_values(m) + 0*m if m.dtype != object else m
            for m in mats]
    want = ref.meijaard(p)
    sc = ref.scale(p)
    for name, m, e in zip(('M', 'C1', 'K0', 'K2'), mats, want):
        close(unumpy.nominal_values(m), e, name, atol=1e-11*sc[name])
    n = 16
    J = gradient(lambda y: entries(y, v)[:n], p, keys) if keys else \
        np.zeros((1, n))
    S = np.array([sig[k] for k in keys] or [0.0])[:, None]
    e = np.sqrt(((J*S)**2).sum(axis=0))
    got = np.concatenate([np.ravel(unumpy.std_devs(m)) for m in mats])
    big = np.concatenate([np.full(4, sc[k]) for k in ('M', 'C1', 'K0',
                                                       'K2')])
    close(got, e, 'standard deviations of M, C1, K0, K2', rtol=1e-4,
          atol=1e-8*big*S.max())
    ctx.nontrivial(len(keys) > 10)


@R.prop(benchmark, quick=60, thorough=1200, shards=2,
        rule='most parameters are uncertain')
def of_a_bicycle(case, ctx):
    """The bicycle object: nominal values and uncertainties."""
    p, sig, v = case
    del p['v']
    b = {k: [x, sig.get(k, 0.0)] for k, x in p.items()}
    root = ctx.tmp
    api.write_bike(root, 'Testbike')
    import os
    os.makedirs(os.path.join(root, 'bicycles', 'Testbike', 'Parameters'))
    with open(os.path.join(root, 'bicycles', 'Testbike', 'Parameters',
                           'TestbikeBenchmark.txt'), 'w') as f:
        for k, (x, s) in b.items():
            f.write('%s = %r+/-%r\n' % (k, x, s))
    from bicycleparameters.main import Bicycle
    bike = Bicycle('Testbike', pathToData=root)
    keys = [k for k in sig if sig[k] > 0]
    J = gradient(lambda y: entries(y, v), p, keys) if keys else \
        np.zeros((1, 40))
    S = np.array([sig[k] for k in keys] or [0.0])[:, None]
    e = np.sqrt(((J*S)**2).sum(axis=0))
    A, B = bike.state_space(v)
    nomA, nomB = bike.state_space(v, nominal=True)
    want = entries(p, v)
    big = np.abs(want[16:]).max()
    close(np.ravel(nomA), want[16:32], 'A', atol=1e-9*big)
    close(np.ravel(nomB), want[32:], 'B', atol=1e-9*big)
    cond = np.linalg.cond(want[:4].reshape(2, 2))
    got = np.concatenate([np.ravel(unumpy.nominal_values(A)),
                          np.ravel(unumpy.nominal_values(B))])
    close(got, want[16:], 'A and B with uncertainties', atol=1e-9*big)
    got = np.concatenate([np.ravel(unumpy.std_devs(A)),
                          np.ravel(unumpy.std_devs(B))])
    if cond < 1e5:
        # (a nearly singular mass matrix is beyond finite differences)
        close(got, e[16:], 'standard deviations of A and B', rtol=2e-2,
              atol=1e-3*e[16:].max() + 1e-7*big*S.max())
    ctx.nontrivial(len(keys) > 10)


@R.prop(benchmark, quick=150, thorough=3000,
        rule='both bodies have uncertain parameters')
def rider_and_bicycle(case, ctx):
    p, sig, v = case
    own = [k for k in p if k[0] in 'mxzI' and k[1] == 'B']
    bike = dict(p)
    rid = {k: p['IHxx'] if 0 else p[k]*1.7 for k in own}
    rid['yB'] = 0.0

    def combine(y):
        r = measure.whole({**{'m0': y['mB'], 'x0': y['xB'], 'z0': y['zB'],
                              'm1': y['rmB'], 'x1': y['rxB'],
                              'z1': y['rzB']},
                           **{'I0' + a: y['IB' + a] for a in
                              ('xx', 'yy', 'zz', 'xz')},
                           **{'I1' + a: y['rIB' + a] for a in
                              ('xx', 'yy', 'zz', 'xz')}}, ('0', '1'))
        return [r['mH'], r['xH'], r['zH'], r['IHxx'], r['IHyy'], r['IHzz'],
                r['IHxz']]
    x = {**{k: p[k] for k in own}, **{'r' + k: rid[k] for k in own}}
    s = {**{k: sig[k] for k in own}, **{'r' + k: 0.5*sig[k] for k in own}}
    keys = [k for k in s if s[k] > 0]
    if not keys:
        raise Skip()
    J = gradient(combine, x, keys)
    S = np.array([s[k] for k in keys])[:, None]
    e = np.sqrt(((J*S)**2).sum(axis=0))
    gb = {k: ufloat(q, sig[k]) if k in own and sig[k] else q
          for k, q in bike.items()}
    gr = {k: ufloat(q, 0.5*sig[k]) if k in own and sig[k] else q
          for k, q in rid.items()}
    out = it.combine_bike_rider(gb, gr)
    names = ['mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz']
    nom = combine(x)
    big = 1e-9*(1 + max(map(abs, nom)))
    for n, m, q in zip(names, nom, e):
        close(float(getattr(out[n], 'nominal_value', out[n])), m, n,
              atol=big)
        close(std(out[n]), q, 'standard deviation of ' + n, rtol=1e-5,
              atol=1e-7*big + 0.1*big*S.max())
    ctx.nontrivial(len(keys) > 6)


@st.composite
def mixtures(draw):
    out = {}
    for i in range(draw(st.integers(0, 8))):
        kind = draw(st.sampled_from(['float', 'ufloat', 'int', 'ufloats',
                                     'expr', 'npfloat', 'floats', 'mixed']))
        out['k%d' % i] = [kind, draw(gen.fl(-5, 5)), draw(gen.fl(0, 1)),
                          draw(st.integers(1, 4))]
    return out


@R.prop(mixtures, quick=400, thorough=6000, rule='at least one uncertain '
        'value and one that is not')
def nominal_values(case, ctx):
    given, want = {}, {}
    for k, (kind, x, s, n) in case.items():
        if kind == 'float':
            given[k] = want[k] = x
        elif kind == 'npfloat':
            given[k], want[k] = np.float64(x), x
        elif kind == 'int':
            given[k] = want[k] = int(x)
        elif kind == 'ufloat':
            given[k], want[k] = ufloat(x, s), x
        elif kind == 'expr':
            given[k], want[k] = ufloat(x, s)*2.0 + ufloat(1.0, s), 2*x + 1
        elif kind == 'floats':
            given[k] = [x + j for j in range(n)]
            want[k] = [x + j for j in range(n)]
        elif kind == 'mixed':
            given[k] = [ufloat(x + j, s) if j % 2 else x + j
                        for j in range(n)]
            want[k] = [x + j for j in range(n)]
        else:
            given[k] = [ufloat(x + j, s) for j in range(n)]
            want[k] = [x + j for j in range(n)]
    keep = dict(given)
    out = bio.remove_uncertainties(given)
    equal(list(out), list(want), 'names')
    for k in want:
        expect(not hasattr(out[k], 'std_dev'), '{} is still uncertain', k)
        close(out[k], want[k], k, rtol=1e-15)
    expect(all(given[k] is keep[k] for k in keep) and
           list(given) == list(keep), 'dictionary passed in was changed')
    kinds = {v[0] for v in case.values()}
    ctx.nontrivial(bool(kinds & {'ufloat', 'ufloats', 'expr'}) and
                   bool(kinds & {'float', 'int', 'npfloat'}))
