"""C16: oscillation periods from pendulum recordings."""
import math
import os

import matplotlib
import numpy as np
from hypothesis import strategies as st
from scipy import optimize
from scipy.io import savemat
from uncertainties import ufloat

from vlib import api, figs, gen, measure
from vlib.core import Registry, close, equal, expect
from bicycleparameters import period
from bicycleparameters.main import Bicycle

matplotlib.rcParams['savefig.dpi'] = 30
R = Registry('C16')
QUICK = 1


@st.composite
def recordings(draw, tlo=0.15, thi=3.0):
    """A decaying oscillation that is sampled well."""
    return {'T': draw(gen.fl(tlo, thi)),
            'samples per period': draw(gen.fl(60.0, 300.0)),
            'periods': draw(gen.fl(4.0, 16.0)),
            'amplitude': draw(gen.fl(0.4, 4.0)),
            'phase': draw(gen.fl(0.0, 6.3)),
            'offset': draw(gen.fl(-2.0, 3.0)),
            'zeta': 10**draw(gen.fl(-3.3, -1.7)),
            # (the clock of the time stamps)
            'start': draw(st.sampled_from([0.0, 0.0, 1.0]))*draw(
                gen.fl(0.0, 1.0)),
            'noise': draw(st.sampled_from([0.0, 1e-4, 1e-3, 1e-2])),
            'seed': draw(st.integers(0, 10**6))}


def model(t, a, b, c, z, w):
    wd = w*np.sqrt(1 - z*z)
    return a + np.exp(-z*w*t)*(b*np.sin(wd*t) + c*np.cos(wd*t))


def truth(q):
    w = 2*math.pi/q['T']/math.sqrt(1 - q['zeta']**2)
    return (q['offset'], q['amplitude']*math.cos(q['phase']),
            q['amplitude']*math.sin(q['phase']), q['zeta'], w)


def record(q, jitter=0.0, integer_rate=False, clock=False):
    """Returns the sample rate, the times, and the voltages."""
    rate = q['samples per period']/q['T']
    if integer_rate:
        rate = int(math.ceil(rate))
    n = int(q['periods']*q['samples per period'])
    rng = np.random.RandomState(q['seed'])
    t = np.arange(n)/rate
    if jitter:
        t[1:] += jitter/rate*rng.uniform(-1, 1, n - 1)
    if clock:
        t += q['start']*q['T']
    return rate, t, model(t, *truth(q)) + q['noise']*rng.standard_normal(n)


def slopes(t, *p):
    """Derivatives of the model with respect to its parameters."""
    J = np.empty((len(t), 5))
    for i in range(5):
        q = np.array(p, dtype=complex)
        q[i] += 1e-30j
        J[:, i] = (model(t, *q)*np.ones(len(t))).imag/1e-30
    return J


def refit(q, t, y):
    """Period and its standard deviation by an independent fit that starts
    from the truth."""
    p, cov = optimize.curve_fit(model, t, y, truth(q), xtol=1e-14,
                                ftol=1e-14, jac=slopes)
    z, w = p[3], p[4]
    T = 2*math.pi/(w*math.sqrt(1 - z*z))
    dz, dw = T*z/(1 - z*z), -T/w
    return T, math.sqrt(dz*dz*cov[3, 3] + dw*dw*cov[4, 4])


def check_period(got, q, t, y, what):
    T, s = refit(q, t, y)
    expect(hasattr(got, 'nominal_value'), '{} is {!r}', what, got)
    close(got.nominal_value, T, what, rtol=1e-6, atol=0.02*s)
    close(got.nominal_value, q['T'], what + ' of the oscillation', rtol=1e-6,
          atol=7*s)
    # (round off is all there is without noise)
    if q['noise']:
        close(got.std_dev, s, 'uncertainty of ' + what, rtol=2e-3)
    else:
        expect(0 <= got.std_dev < 1e-6*q['T'], 'uncertainty {!r}',
               got.std_dev)


FORMS = ['int', 'float', 'npint', 'npfloat', '0d', 'time', 'time list',
         'uneven time']


@R.prop(lambda: st.tuples(recordings(), st.sampled_from(FORMS),
                          st.sampled_from(api.HOW)),
        quick=300, thorough=5000, shards=4,
        rule='noise, or time stamps in place of a sample rate')
def period_of_an_oscillation(case, ctx):
    q, form, how = case
    rate, t, y = record(q, 0.3 if form == 'uneven time' else 0.0,
                        form in ('int', 'npint'), 'time' in form)
    given = {'int': lambda: int(rate), 'npint': lambda: np.int64(rate),
             'float': lambda: float(rate), 'npfloat': lambda: np.float64(rate),
             '0d': lambda: np.array(rate),
             'time list': lambda: list(t)}.get(form, lambda: t)()
    data = api.as_given(y, how)
    path = os.path.join(ctx.tmp, 'fit.png')
    T = period.get_period(data, given, path)
    check_period(T, q, t, y, 'period')
    expect(os.path.getsize(path) > 0, 'no plot was written')
    equal(list(data), y.tolist(), 'recording afterwards')
    ctx.label(form, how, 'noise %g' % q['noise'])
    ctx.nontrivial(q['noise'] > 0 or 'time' in form)


@R.prop(lambda: st.tuples(recordings(), st.sampled_from(
    ['int', 'float', 'npint', 'time']), gen.fl(0.0, 1.0), gen.fl(0.0, 2.0)),
        quick=160, thorough=3000, shards=2,
        rule='recording starts before the release, or has time stamps')
def period_of_a_raw_recording(case, ctx):
    """A sampled recording is cut to its good part first, one with time
    stamps is not."""
    q, form, before, junk = case
    if form == 'time':
        rate, t, y = record(q, clock=True)
        T = period.get_period_from_truncated(
            y, t, os.path.join(ctx.tmp, 'fit.png'))
        check_period(T, q, t, y, 'period')
    else:
        rate, t, y = record(q, 0.0, form in ('int', 'npint'))
        # held still, somewhere inside the range of the oscillation
        n = int(before*q['samples per period'])
        mid = q['offset'] + 0.3*q['amplitude']*(junk - 1.0)
        y = np.concatenate((np.full(n, mid), y))
        given = {'int': int, 'npint': np.int64, 'float': float}[form](rate)
        T = period.get_period_from_truncated(
            y, given, os.path.join(ctx.tmp, 'fit.png'))
        good = reference_cut(y, 0.1)
        t = np.arange(len(good))/rate
        # (the cut moves the start; fit the rest anew)
        z, w = truth(q)[3:]
        lead = (np.argmax(np.abs(y - np.mean(y))) - n)/rate
        g = np.linalg.lstsq(np.stack([
            np.ones_like(t), model(t, 0, 1, 0, z, w), model(t, 0, 0, 1, z, w)],
            1), good, rcond=None)[0]
        p, cov = optimize.curve_fit(model, t, good, (g[0], g[1], g[2], z, w),
                                    xtol=1e-14, ftol=1e-14, jac=slopes)
        Tr = 2*math.pi/(p[4]*math.sqrt(1 - p[3]**2))
        s = Tr*math.sqrt(cov[4, 4])/p[4]
        expect(lead > -1, 'the harness cut a recording wrongly')
        close(T.nominal_value, Tr, 'period', rtol=1e-6, atol=0.02*s)
        close(T.nominal_value, q['T'], 'period of the oscillation', rtol=1e-6,
              atol=7*s)
    ctx.label(form)
    ctx.nontrivial(form == 'time' or before > 0.05)


def reference_cut(y, percent):
    d = [v - float(np.mean(y)) for v in y]
    size = [abs(v) for v in d]
    first = size.index(max(size))
    last = max(i for i, v in enumerate(d) if v > percent*max(size))
    return np.asarray(y)[first:last]


@R.prop(lambda: st.tuples(st.lists(gen.fl(-5.0, 5.0), min_size=2,
                                   max_size=40), gen.fl(0.02, 0.9)),
        quick=800, thorough=16000, rule='a slice with at least two samples')
def good_part_of_the_data(case, ctx):
    y, percent = case
    y = np.array(y)
    if np.max(np.abs(y - np.mean(y))) < 1e-3:
        return
    # (ties and samples right at the limit are up to rounding)
    d = y - np.mean(y)
    m = np.max(np.abs(d))
    if np.min(np.abs(d - percent*m)) < 1e-9 or \
            np.sum(np.abs(d) > m - 1e-9) > 1 or not np.any(d > percent*m):
        return
    keep = y.copy()
    got = period.select_good_data(y, percent)
    want = reference_cut(y, percent)
    equal(list(got), want.tolist(), 'good part')
    equal(y.tolist(), keep.tolist(), 'data afterwards')
    ctx.nontrivial(len(want) > 1)


@R.prop(recordings, quick=200, thorough=4000,
        rule='sections of several sizes')
def sections_of_an_oscillation(q, ctx):
    """From the top of the largest half wave to that of the smallest one of
    those above average."""
    _, _, y = record(q)
    d = y - np.mean(y)
    halves, begin = [], 0
    for i in range(1, len(d)):
        if d[i - 1]*d[i] <= 0:
            if d[i - 1]*d[i] == 0:
                return
            halves.append((begin, i - 1))
            begin = i - 1
    halves.append((begin, len(d)))
    size = [math.fsum(abs(d[a:b]))/(b - a) if b > a else 0.0
            for a, b in halves]
    if any(b == a for a, b in halves):
        return
    over = [(s, a, b) for s, (a, b) in zip(size, halves)
            if s > math.fsum(size)/len(size)]
    top = [a + max(range(b - a), key=lambda i: abs(d[a + i]))
           for s, a, b in (max(over), min(over))]
    keep = y.copy()
    got = period.average_rectified_sections(y)
    equal(list(got), list(y[top[0]:top[1]]), 'slice')
    equal(list(y), list(keep), 'data afterwards')
    ctx.nontrivial(len(over) > 2 and top[0] < top[1])


@R.prop(lambda: st.tuples(st.lists(st.tuples(gen.fl(-3.0, 3.0),
                                             gen.fl(-3.0, 3.0)), min_size=2,
                                   max_size=30)),
        quick=600, thorough=10000, rule='measured values differ')
def goodness_of_fit(case, ctx):
    ym, yp = np.array(case[0]).T
    mean = math.fsum(ym)/len(ym)
    SST = math.fsum((a - mean)**2 for a in ym)
    if SST < 1e-6:
        return
    SSR = math.fsum((b - mean)**2 for b in yp)
    SSE = math.fsum((a - b)**2 for a, b in zip(ym, yp))
    rsq, e, t, r = period.fit_goodness(ym, yp)
    close(e, SSE, 'error sum of squares', rtol=1e-9, atol=1e-12)
    close(t, SST, 'total sum of squares', rtol=1e-9, atol=1e-12)
    close(r, SSR, 'regression sum of squares', rtol=1e-9, atol=1e-12)
    close(rsq, SSR/SST, 'r squared', rtol=1e-9, atol=1e-9)
    # of a linear fit
    A = np.stack([np.ones(len(ym)), np.arange(len(ym)) - 3.0], 1)
    fit = A @ np.linalg.lstsq(A, ym, rcond=None)[0]
    rsq, e, t, r = period.fit_goodness(ym, fit)
    close(e + r, t, 'parts of the total sum of squares', rtol=1e-8,
          atol=1e-9)
    close(rsq, 1 - e/t, 'r squared of a linear fit', rtol=0, atol=1e-7)
    ctx.nontrivial()


@R.prop(lambda: st.tuples(gen.fl(-3.0, 3.0), gen.fl(-3.0, 3.0),
                          gen.fl(-3.0, 3.0), gen.fl(-0.5, 0.9),
                          gen.fl(0.1, 20.0), st.lists(
                              gen.fl(0.0, 3.0), min_size=1, max_size=8)),
        quick=800, thorough=16000, rule='damped')
def jacobian_of_the_model(case, ctx):
    p, t = np.array(case[:5]), np.array(case[5])
    J = period.jac_fitfunc(p, t)
    want = slopes(t, *p)
    close(J, want, 'Jacobian', rtol=1e-9, atol=1e-9*(1 + np.abs(want).max()))
    ctx.nontrivial(abs(p[3]) > 1e-3)


PARTS = {'Fwheel': 'F', 'Rwheel': 'R', 'Frame': 'B', 'Flywheel': 'D',
         'Fork': None, 'Handlebar': 'G', 'Rod': 'P'}
WORDS = ['First', 'Second', 'Third', 'Fourth', 'Fifth', 'Sixth']


@R.prop(lambda: st.tuples(st.sampled_from(sorted(PARTS)), st.sampled_from(
    ['Torsional', 'Compound', 'torsional', 'compound']), st.integers(0, 5),
    st.booleans(), st.sampled_from(['angle', 'angleOrder', 'both']),
    st.sampled_from(['Rod', 'Pipe', None])),
        quick=300, thorough=3000, rule='fork, handlebar or rod')
def name_of_the_period(case, ctx):
    part, pend, i, split, field, rod = case
    if part == 'Handlebar' and not split:
        return
    data = {'part': part, 'pendulum': pend}
    if field != 'angleOrder':
        data['angle'] = WORDS[i if field == 'angle' else (i + 1) % 6]
    if field != 'angle':
        data['angleOrder'] = WORDS[i]
    if rod is not None:
        data['rod'] = rod
        if part == 'Rod':
            data['part'] = rod
    letter = PARTS[part] or ('S' if split else 'H')
    equal(period.get_period_key(data, split),
          'T' + pend[0].lower() + letter + str(i + 1), 'name')
    for name in ('ActualRate', 'sampleRate'):
        equal(period.get_sample_rate({name: 200 + i}), 200 + i, 'rate')
    equal(period.get_sample_rate({'ActualRate': 199, 'sampleRate': 200}),
          199, 'rate if both are there')
    ctx.nontrivial(part in ('Fork', 'Handlebar', 'Rod'))


@R.prop(lambda: st.tuples(measure.bikes(), st.integers(0, 60),
                          st.integers(0, 3)),
        quick=500, thorough=8000, rule='exactly one period is missing')
def missing_periods_are_noticed(case, ctx):
    b, i, drop = case
    mp, _ = measure.forward(b)
    need = sorted(k for k in mp if k[0] == 'T')
    gone = {need[(i + 7*j) % len(need)] for j in range(drop)}
    for k in gone:
        del mp[k]
    equal(bool(period.check_for_period(mp, 'S' in b)), bool(gone),
          'calculation of periods needed without %s' % sorted(gone))
    ctx.label('%d missing' % len(gone))
    ctx.nontrivial(len(gone) == 1)


PART_OF = {'F': 'Fwheel', 'R': 'Rwheel', 'B': 'Frame', 'D': 'Flywheel',
           'H': 'Fork', 'S': 'Fork', 'G': 'Handlebar', 'P': 'Rod'}


def write_mat(path, key, q, style, trial, extra=None):
    timed = style.startswith('time')
    rate, t, y = record(q, 0.3 if timed else 0.0, not timed, timed)
    d = {'data': y, 'part': PART_OF[key[2]], 'notes': '',
         'pendulum': {'t': 'Torsional', 'c': 'Compound'}[key[1]],
         'trial': str(trial), 'bicycle': 'Testbike', 'duration': 30}
    d['angleOrder' if style != 'old' else 'angle'] = WORDS[int(key[3]) - 1]
    if style == 'actual':
        d.update(ActualRate=rate, sampleRate=2*rate + 1)
    elif style == 'time and rates':
        d.update(ActualRate=3*rate, sampleRate=2*rate)
    else:
        d['sampleRate'] = rate if style != 'time' else 3*rate
    if timed:
        d['time'] = t
    d.update(extra or {})
    savemat(path, d)
    return rate, t, y


KEYS = ['TcB1', 'TtB1', 'TtB2', 'TtB3', 'TtP1', 'TcR1', 'TtF1']
STYLES = ['plain', 'actual', 'time', 'old', 'time and rates']


@st.composite
def folders(draw):
    """Files of one directory: several trials of several periods."""
    split = draw(st.booleans())
    keys = KEYS + (['TcS1', 'TtS2', 'TtG1'] if split else ['TcH1', 'TtH6'])
    keys = draw(st.one_of(st.just(keys), st.lists(
        st.sampled_from(keys), min_size=1, max_size=2)))
    files = draw(st.lists(st.tuples(
        st.sampled_from(keys), recordings(), st.sampled_from(STYLES),
        gen.fl(-0.05, 0.05)), min_size=1, max_size=6))
    return split, files


@R.prop(folders, quick=60, thorough=1200, shards=2,
        rule='several trials of one period')
def periods_of_files(case, ctx):
    """Trials of the same thing are averaged."""
    split, files = case
    raw = os.path.join(ctx.tmp, 'Testbike', 'RawData')
    os.makedirs(raw)
    want, names, first = {}, [], {}
    for i, (key, q, style, change) in enumerate(files):
        # (trials of one thing have almost the same period)
        q = dict(q, T=first.setdefault(key, q['T'])*(1 + change))
        q['noise'] = min(q['noise'], 1e-3)
        name = 'TestbikePart%d.mat' % i
        rate, t, y = write_mat(os.path.join(raw, name), key, q, style, i)
        want.setdefault(key, []).append(q['T'])
        names.append(name)
    got = period.calc_periods_for_files(raw, names, split)
    equal(sorted(got), sorted(want), 'periods')
    for k, v in want.items():
        # (cutting leaves two or three periods in the worst case)
        close(got[k].nominal_value, sum(v)/len(v), k, rtol=2e-4,
              atol=7*got[k].std_dev)
    for n in names:
        expect(os.path.isfile(os.path.join(
            ctx.tmp, 'Testbike', 'Plots', 'PendulumFit', n[:-4] + '.png')),
            'no plot of {}', n)
    equal(sorted(os.listdir(raw)), sorted(names), 'files of recordings')
    ctx.label('%d files' % len(files))
    ctx.nontrivial(len(want) < len(files))


@R.prop(lambda: st.tuples(measure.bikes(), st.integers(1, 2), st.integers(
    0, 10**6), st.sampled_from(['some', 'none', 'all forced'])),
        quick=24, thorough=300, shards=4,
        rule='some periods are in the file already')
def bicycle_from_recordings(case, ctx):
    """The whole way from recordings to the benchmark parameters."""
    b, trials, seed, known = case
    mp, want = measure.forward(b)
    periods = {k: v for k, v in mp.items() if k[0] == 'T'}
    # (a clock for every pendulum: the ratio to the sampling is what counts)
    if min(periods.values()) < 0.05 or max(periods.values()) > 20:
        return
    d = api.write_bike(ctx.tmp, 'Testbike')
    raw = os.path.join(d, 'RawData')
    os.makedirs(raw)
    text = {k: v for k, v in mp.items() if k[0] != 'T'}
    keys = sorted(periods)
    keep = {'none': [], 'some': keys[::2],
            'all forced': keys}[known]
    for k in keep:
        # (overwritten, so the value does not matter)
        text[k] = 3.0 if seed % 2 else periods[k]
    api.write_par(os.path.join(raw, 'TestbikeMeasured.txt'), text)
    rng = np.random.RandomState(seed)
    n = 0
    for k in keys:
        for j in range(trials):
            q = {'T': periods[k], 'samples per period': rng.uniform(80, 160),
                 'periods': rng.uniform(6, 10),
                 'amplitude': rng.uniform(0.5, 2), 'phase': rng.uniform(0, 6),
                 'offset': rng.uniform(-1, 2), 'zeta': 0.002, 'noise': 0.0,
                 'start': rng.uniform(), 'seed': 0}
            # (exact sample rates: the time stamps need no rounding)
            write_mat(os.path.join(raw, 'TestbikePart%d.mat' % n), k, q,
                      STYLES[rng.randint(len(STYLES))], j)
            n += 1
    # (what is left behind by other programs is no recording)
    for f in ['TestbikePart0.mat~', 'TestbikePart1.mat.bak',
              'mat', 'notes.txt'][:seed % 5]:
        with open(os.path.join(raw, f), 'w') as h:
            h.write('nothing')
    bike = Bicycle('Testbike', pathToData=ctx.tmp, forceRawCalc=True,
                   forcePeriodCalc=known == 'all forced')
    got = bike.parameters['Benchmark']
    for k, v in periods.items():
        close(bike.parameters['Measured'][k].nominal_value, v, k, rtol=1e-6)
    for k, v in want.items():
        x = getattr(got[k], 'nominal_value', got[k])
        close(x, v, k, rtol=0, atol=1e-3*measure.scale_of(want, k))
    # it has been written down: nothing is left to be calculated
    again = Bicycle('Testbike', pathToData=ctx.tmp, forceRawCalc=True)
    for k, v in periods.items():
        close(again.parameters['Measured'][k].nominal_value, v,
              k + ' read back', rtol=1e-5)
    ctx.label(known)
    ctx.nontrivial(known == 'some')


@R.prop(lambda: st.tuples(recordings(), st.booleans(), st.booleans(),
                          st.booleans()),
        quick=60, thorough=600, shards=4, rule='drawn to a given figure')
def fit_plots(case, ctx):
    q, given, limit, other = case
    rate, t, y = record(q)
    fit = model(t, *truth(q))
    T = ufloat(q['T'], 0.01*q['T'])
    rsq = 0.25 + 0.5*(q['seed'] % 1000)/1000
    with figs.Closing() as plt:
        own = plt.subplots()[0] if given else None
        if other:
            spare = plt.subplots()[0]
        kw = {'fig': own} if given else {}
        if limit:
            kw['m'] = t[-1]/2
        fig = period.plot_osfit(t, y, fit, truth(q), rsq, T, **kw)
        expect(own is None or fig is own, 'not drawn in the given figure')
        expect(not other or (fig is not spare and not spare.axes[0].lines),
               'drawn in another figure')
        ax, = fig.axes
        a, b = [figs.xy(ln) for ln in ax.lines]
        for g, w, what in ((a[0], t, 'times'), (a[1], y, 'recording'),
                           (b[0], t, 'times of the fit'), (b[1], fit, 'fit')):
            close(g, w, what, rtol=1e-12, atol=1e-12)
        equal([x.get_text() for x in ax.get_legend().get_texts()],
              ['Measured', 'Fit'], 'legend')
        title = ax.get_title()
        expect(str(T) in title and '%.3f' % rsq in title, 'title {!r} with '
               'period {} and r squared {}', title, T, rsq)
        if limit:
            close(ax.get_xlim(), [0, kw['m']], 'limits')
        expect('[s]' in ax.get_xlabel() and '[V]' in ax.get_ylabel(),
               'labels')
    ctx.nontrivial(given)
