"""C21: the model plots show the numbers of the model."""
import re

import numpy as np
from hypothesis import strategies as st

from vlib import api, figs, gen
from vlib.core import Registry, Skip, close, equal, expect, numeric, raises

R = Registry('C21')

MODELS = {'plain': (gen.meijaard, api.mmodel, 4, 2),
          'feedback': (gen.meijaard_feedback, api.fbmodel, 4, 2),
          'lean': (gen.riderlean, api.leanmodel, 12, 3)}

SWEEPS = {'plain': ['v', 'g', 'w', 'c', 'mB', 'IHzz'],
          'feedback': ['v', 'g', 'kTdel_phid', 'kTphi_phi', 'c'],
          'lean': ['v', 'g', 'k9', 'c9', 'mc']}
RANGE = {'v': (-10.0, 12.0), 'g': (1.0, 15.0), 'w': (0.5, 2.0),
         'c': (-0.2, 0.4), 'mB': (1.0, 150.0), 'IHzz': (0.05, 2.0),
         'kTdel_phid': (-60.0, 60.0), 'kTphi_phi': (-200.0, 200.0),
         'k9': (0.0, 400.0), 'c9': (0.0, 60.0), 'mc': (1.0, 100.0)}


@st.composite
def ascending(draw, key, n):
    lo, hi = RANGE[key]
    start = draw(gen.fl(lo, lo + 0.7*(hi - lo)))
    steps = [draw(gen.fl(0.01, 1.0)) for _ in range(n - 1)]
    span = draw(gen.fl(0.05, 1.0))*(hi - start)
    tot = sum(steps) or 1.0
    return [start] + [start + span*sum(steps[:k + 1])/tot
                      for k in range(n - 1)]


@st.composite
def sweeps(draw, kinds, lo=2, hi=9):
    kind = draw(st.sampled_from(kinds))
    p = draw(MODELS[kind][0]())
    if kind == 'feedback' and draw(st.booleans()):
        # roll and steer feedback strong enough to make it stable
        p.update({'kTphi_phi': 3000.0, 'kTphi_phid': 300.0,
                  'kTdel_del': 100.0, 'kTdel_deld': 20.0})
    key = draw(st.sampled_from(SWEEPS[kind]))
    vals = draw(ascending(key, draw(st.integers(lo, hi))))
    how = draw(st.sampled_from(api.HOW))
    over = {}
    if key != 'v' and draw(st.booleans()):
        over['v'] = draw(gen.speed)
    return {'kind': kind, 'p': p, 'key': key, 'vals': vals, 'how': how,
            'over': over}


def overrides(case):
    over = dict(case['over'])
    if case.get('after') is not None:
        over[case['key']] = api.as_given(case['vals'], case['how'])
        k, v = case['after']
        over[k] = api.as_given(v, case['how'])
        return over
    if case.get('first', True):
        return dict({case['key']: api.as_given(case['vals'], case['how'])},
                    **over)
    over[case['key']] = api.as_given(case['vals'], case['how'])
    return over


@st.composite
def part_cases(draw):
    case = draw(sweeps(['plain', 'plain', 'feedback', 'lean']))
    m = MODELS[case['kind']][2]
    case['first'] = draw(st.booleans())
    case['sort'] = draw(st.booleans())
    case['shade'] = draw(st.sampled_from([None, True, False]))
    case['hide'] = draw(st.sampled_from([None, False, True, 1.0, 1e-6]))
    case['colors'] = draw(st.sampled_from([
        None, ['C%d' % (k % 10) for k in range(m)],
        ['k', 'r', 'b', 'g']*(m//4)]))
    case['ax'] = draw(st.booleans())
    if case['key'] != 'g' and draw(st.integers(0, 3)) == 0:
        case['after'] = ['g', [9.81 + 0.01*k
                               for k in range(len(case['vals']))]]
    return case


def hidden(vals, tol):
    vals = np.array(vals, float)
    if np.any((np.abs(vals) > tol*0.9) & (np.abs(vals) < tol*1.1)):
        raise Skip
    vals[np.abs(vals) < tol] = np.nan
    return vals


def match(got, want, tol, what):
    """Two collections of points (rows) are the same, in any order."""
    got, want = list(map(tuple, got)), list(map(tuple, want))
    expect(len(got) == len(want), '%s: %d points, expected %d'
           % (what, len(got), len(want)))
    left = list(want)
    for g in got:
        best = None
        for k, w in enumerate(left):
            d = 0.0
            for a, b in zip(g, w):
                if np.isnan(a) != np.isnan(b):
                    d = np.inf
                elif not np.isnan(a):
                    d = max(d, abs(a - b))
            if best is None or d < best[0]:
                best = (d, k)
        expect(best[0] <= tol, '{}: shows {!r}, the values are {!r}', what,
               got, want)
        left.pop(best[1])


@R.prop(part_cases, quick=160, thorough=2500, shards=4,
        rule='some eigenvalues are not real')
def eigenvalue_parts(case, ctx):
    _, make, m, _ = MODELS[case['kind']]
    over = overrides(case)
    x = np.array(case['vals'])
    w = np.asarray(make(case['p']).calc_eigen(**over)[0])
    model = make(case['p'])
    with figs.Closing() as plt:
        kw = {}
        given = None
        if case['ax']:
            _, given = plt.subplots(2)
            given = given[1]
            kw['ax'] = given
        if case['colors'] is not None:
            kw['colors'] = case['colors']
        if case['shade'] is not None:
            kw['show_stable_regions'] = case['shade']
        if case['hide'] is not None:
            kw['hide_zeros'] = case['hide']
        if not case['sort']:
            kw['sort_modes'] = False
        ax = model.plot_eigenvalue_parts(**kw, **over)
        if given is not None:
            expect(ax is given, 'returned axes are not the given axes')
        lines = figs.data_lines(ax)
        expect(len(lines) == 2*m, '{} lines drawn, expected {}', len(lines),
               2*m)
        re_, im_ = np.real(w), np.abs(np.imag(w))
        hide = case['hide'] or False
        if hide:
            tol = hide if isinstance(hide, float) else 1e-12
            re_, im_ = hidden(re_, tol), hidden(im_, tol)
        size = np.nanmax(np.abs(w)) + 1.0
        for ln in lines:
            close(figs.xy(ln)[0], x, 'horizontal positions', rtol=1e-12,
                  atol=1e-12)
        if case['sort']:
            real = [ln for ln in lines if ln.get_linestyle() == '-']
            imag = [ln for ln in lines if ln.get_linestyle() == '--']
            expect(len(real) == m and len(imag) == m, 'solid and dashed lines'
                   ': {} and {}', len(real), len(imag))
            for a, b in zip(imag, real):
                expect(a.get_label() == b.get_label() and
                       figs.rgba(a.get_color()) == figs.rgba(b.get_color()),
                       'real and imaginary part of a mode look different')
            if case['colors'] is not None:
                equal([figs.rgba(ln.get_color()) for ln in real],
                      [figs.rgba(c) for c in case['colors']], 'colors')
            elif m <= 10:
                expect(len({figs.rgba(ln.get_color()) for ln in real}) == m,
                       'two modes share a color')
            a = np.array([figs.xy(ln)[1] for ln in real]).T
            b = np.array([figs.xy(ln)[1] for ln in imag]).T
            for k in range(len(x)):
                match(zip(a[k], b[k]), zip(re_[k], im_[k]), 1e-9*size,
                      'modes at position %d' % k)
        else:
            real = [ln for ln in lines
                    if figs.rgba(ln.get_color()) == figs.rgba('black')]
            imag = [ln for ln in lines if ln not in real]
            expect(len(real) == m, 'black (real part) marks: {}', len(real))
            for ln in lines:
                expect(ln.get_linestyle() in ('None', 'none', '', ' ') and
                       ln.get_marker() not in ('None', 'none', '', None),
                       'unsorted modes are not drawn as unconnected marks')
            a = np.array([figs.xy(ln)[1] for ln in real]).T
            b = np.array([figs.xy(ln)[1] for ln in imag]).T
            for k in range(len(x)):
                match(a[k][:, None], re_[k][:, None], 1e-9*size,
                      'real parts at position %d' % k)
                match(b[k][:, None], im_[k][:, None], 1e-9*size,
                      'imaginary parts at position %d' % k)
        lo, hi = ax.get_xlim()
        close([lo, hi], [x[0], x[-1]], 'limits of the horizontal axis',
              rtol=1e-12, atol=1e-12)
        expect(model.parameter_set.par_strings[case['key']] in
               ax.get_xlabel(), 'horizontal axis label {!r}',
               ax.get_xlabel())
        # shaded where every real part is not positive
        boxes = figs.shaded(ax)
        if case['shade'] is False:
            expect(not boxes, 'regions are shaded although not asked for')
        else:
            stable = np.all(np.real(w) <= 0.0, axis=1)
            for k in range(len(x) - 1):
                mid = 0.5*(x[k] + x[k + 1])
                over_ = [b for b in boxes if b[0] < mid < b[1]]
                if stable[k] and stable[k + 1]:
                    expect(any(b[2] <= 1e-6 and b[3] >= 1 - 1e-6
                               for b in over_), 'the stable region {!r} to '
                           '{!r} is not shaded over the full height: {!r}',
                           x[k], x[k + 1], over_)
                elif not stable[k] and not stable[k + 1]:
                    expect(not over_, 'unstable region {!r} to {!r} is '
                           'shaded', x[k], x[k + 1])
            ctx.label('%s stable' % ('some' if stable.any() else 'none'))
    equal(dict(model.parameter_set.parameters), dict(case['p']),
          'parameters after plotting')
    ctx.label(case['kind'], 'sorted' if case['sort'] else 'unsorted',
              'hide %r' % (case['hide'],))
    ctx.nontrivial(bool(np.any(np.imag(w) != 0)))


@st.composite
def vector_cases(draw):
    kind = draw(st.sampled_from(['plain', 'plain', 'feedback', 'lean']))
    n = draw(st.integers(0, 3 if kind != 'lean' else 1))
    if n:
        case = draw(sweeps([kind], n, n))
    else:
        case = {'kind': kind, 'p': draw(MODELS[kind][0]()),
                'over': {'v': draw(gen.speed)} if draw(st.booleans()) else {},
                'key': None}
    case['hide'] = draw(st.sampled_from([False, False, True, 3.0])) \
        if n < 2 else False
    return case


@R.prop(vector_cases, quick=100, thorough=1200, shards=6,
        rule='an eigenvector has complex components')
def eigenvectors(case, ctx):
    _, make, m, _ = MODELS[case['kind']]
    over = overrides(case) if case['key'] else dict(case['over'])
    w, V = make(case['p']).calc_eigen(**over)
    w, V = np.asarray(w), np.asarray(V)
    if not case['key']:
        w, V = w[None], V[None]
    show = [True]*m
    if case['hide']:
        tol = case['hide'] if isinstance(case['hide'], float) else 1e-14
        mag = np.abs(w[0])
        if np.any((mag > 0.5*tol) & (mag < 2*tol)) or np.all(mag < tol):
            raise Skip
        show = mag >= tol
    model = make(case['p'])
    with figs.Closing():
        axes = model.plot_eigenvectors(**(
            {'hide_zeros': case['hide']} if case['hide'] else {}), **over)
        axes = np.asarray(axes)
        n = int(np.sum(show))
        expect(axes.shape == (len(w), n), 'axes have shape {}, expected {}',
               axes.shape, (len(w), n))
        for k in range(len(w)):
            cols = [j for j in range(m) if show[j]]
            for c, j in enumerate(cols):
                ax = axes[k, c]
                what = 'row %d, eigenvector %d' % (k, j)
                lines = list(ax.lines)
                expect(len(lines) == m, '{}: {} components drawn', what,
                       len(lines))
                vec = V[k][:, j]
                ends = []
                for ln in lines:
                    th, r = figs.xy(ln)
                    expect(r[0] == 0.0, '{}: not from the origin', what)
                    ends.append(r[-1]*np.exp(1j*th[-1]))
                close(ends, vec/np.abs(vec).max(), what, rtol=0, atol=1e-9,
                      kind='complex')
                z = figs.title_number(ax.get_title())
                expect(z is not None and abs(z - w[k, j]) <= 2e-3,
                       '{}: titled {!r} but the eigenvalue is {!r}', what,
                       ax.get_title(), w[k, j])
                red = figs.rgba(ax.title.get_color()) == figs.rgba('red')
                expect(red == (w[k, j].real >= 0), '{}: title color of '
                       'eigenvalue {!r}', what, w[k, j])
                expect(ax.get_rmax() == 1.0, '{}: radius {}', what,
                       ax.get_rmax())
            if case['key']:
                lab = axes[k, 0].get_ylabel()
                num = re.search(r'=\s*(\S+)', lab.replace('\u2212', '-'))
                expect(lab.startswith(case['key']) and num and abs(
                    float(num.group(1)) - case['vals'][k]) <= 0.0051,
                    'row {} is labelled {!r}, value {!r}', k, lab,
                    case['vals'][k])
    ctx.label(case['kind'], '%d values' % len(w))
    ctx.nontrivial(bool(np.any(np.imag(V) != 0)))


@R.prop(lambda: st.tuples(gen.meijaard(), st.integers(11, 14)), quick=10,
        thorough=60, rule='every case')
def too_many_vectors(case, ctx):
    p, n = case
    with figs.Closing():
        raises(ValueError, lambda: api.mmodel(p).plot_eigenvectors(
            v=np.linspace(1.0, 5.0, n)), 'plotting %d values' % n)
    ctx.nontrivial()


@st.composite
def sim_cases(draw, hide=True):
    kind = draw(st.sampled_from(['plain', 'plain', 'feedback', 'lean']))
    _, _, m, n = MODELS[kind]
    case = {'kind': kind, 'p': draw(MODELS[kind][0]()),
            'over': {'v': draw(gen.speed)} if draw(st.booleans()) else {},
            'n': draw(st.integers(2, 8)), 'dt': draw(gen.fl(0.01, 0.08)),
            't0': draw(gen.nz(-1.0, 3.0, 1e-3)),
            'x0': [draw(gen.nz(-0.5, 0.5, 1e-3)) for _ in range(m)],
            'u': draw(st.one_of(st.none(), st.just(
                [draw(gen.nz(-20.0, 20.0, 1e-2)) for _ in range(n)])))}
    if hide:
        case['hide'] = draw(st.sampled_from([False, True, 1.0, 4.0]))
    return case


def factor(label):
    """Radians to the unit named in a label."""
    return 180.0/np.pi if 'deg' in label else 1.0


@R.prop(sim_cases, quick=120, thorough=1500, shards=6,
        rule='the motion is not at rest')
def mode_simulations(case, ctx):
    _, make, m, _ = MODELS[case['kind']]
    t = case['t0'] + case['dt']*np.arange(case['n'])
    over = case['over']
    ref = make(case['p'])
    w, V = ref.calc_eigen(**over)
    if np.abs(w).max()*(t[-1] - t[0]) > 50:
        raise Skip
    res = numeric(ref.simulate_modes(t, **over), 'modes')
    show = np.ones(m, bool)
    if case['hide']:
        tol = case['hide'] if isinstance(case['hide'], float) else 1e-12
        mag = np.abs(w)
        if np.any((mag > 0.5*tol) & (mag < 2*tol)) or np.all(mag < tol):
            raise Skip
        show = mag >= tol
    model = make(case['p'])
    units = sorted(set(model.state_units))
    with figs.Closing():
        axes = np.asarray(model.plot_mode_simulations(t, **(
            {'hide_zeros': case['hide']} if case['hide'] else {}), **over))
        expect(axes.shape == (int(show.sum()), len(units)),
               'axes have shape {}, {} modes of {} units', axes.shape,
               int(show.sum()), len(units))
        for row, j in enumerate(np.flatnonzero(show)):
            for ax in axes[row]:
                z = figs.title_number(ax.get_title())
                expect(z is not None and abs(z - w[j]) <= 2e-3,
                       'mode {} is titled {!r}, eigenvalue {!r}', j,
                       ax.get_title(), w[j])
                red = figs.rgba(ax.title.get_color()) == figs.rgba('red')
                expect(red == (w[j].real >= 0), 'title color of eigenvalue '
                       '{!r}', w[j])
            shown = {}
            for ax in axes[row]:
                for ln in ax.lines:
                    shown.setdefault(ln.get_label(), []).append((ax, ln))
            for s, (unit, name) in enumerate(zip(model.state_units,
                                                 model.state_vars_latex)):
                found = shown.get('$' + name + '$', [])
                expect(len(found) == 1, 'state {} is drawn {} times in the '
                       'row of mode {}', name, len(found), j)
                ax, ln = found[0]
                x, y = figs.xy(ln)
                close(x, t, 'times of %s' % name, rtol=1e-12, atol=1e-12)
                if unit.startswith('m'):
                    expect('deg' not in ax.get_ylabel() and
                           'rad' not in ax.get_ylabel(), '{} in an axes '
                           'labelled {!r}', name, ax.get_ylabel())
                    f = 1.0
                else:
                    f = factor(ax.get_ylabel())
                expect(('/s' in ax.get_ylabel()) == ('/s' in unit),
                       '{} [{}] in an axes labelled {!r}', name, unit,
                       ax.get_ylabel())
                close(y, f*res[j][:, s], '%s of mode %d, in the unit of the '
                      'axes (%s)' % (name, j, ax.get_ylabel()), rtol=1e-9,
                      atol=1e-12)
        for ax in axes[-1]:
            expect('Time' in ax.get_xlabel(), 'label of the time axis: {!r}',
                   ax.get_xlabel())
    ctx.label(case['kind'], '%d modes' % int(show.sum()))
    ctx.nontrivial(bool(np.any(res)))


@R.prop(lambda: sim_cases(False), quick=100, thorough=1500, shards=4,
        rule='an input function is given')
def simulations(case, ctx):
    _, make, m, n = MODELS[case['kind']]
    t = case['t0'] + case['dt']*np.arange(case['n'])
    over = case['over']
    ref = make(case['p'])
    w, _ = ref.calc_eigen(**over)
    if np.abs(w).max()*(t[-1] - t[0]) > 50:
        raise Skip
    f = None
    if case['u'] is not None:
        f = lambda ti, x: np.array(case['u'])*np.sin(3.0*ti + 0.5)  # noqa
    x, u = ref.simulate(t, np.array(case['x0']), input_func=f, **over)
    x, u = numeric(x, 'x'), numeric(u, 'u')
    model = make(case['p'])
    x0 = np.array(case['x0'])
    with figs.Closing():
        axes = model.plot_simulation(t, x0, input_func=f, **over)
        fig = axes[0].figure
        seen = {}
        for ax in fig.axes:
            labels = []
            if ax.get_legend() is not None:
                labels = [q.get_text() for q in ax.get_legend().get_texts()]
            lines = list(ax.lines)
            if not labels:
                labels = re.findall(r'\$[^$]*\$', ax.get_ylabel())
            expect(len(labels) == len(lines), '{} lines, named {!r}',
                   len(lines), labels)
            for lab, ln in zip(labels, lines):
                seen.setdefault(lab, []).append((ax, ln))
        names = (list(zip(model.state_vars_latex, x.T, model.state_units)) +
                 list(zip(model.input_vars_latex, u.T, ['Nm']*n)))
        for name, want, unit in names:
            found = seen.pop('$' + name + '$', [])
            if case['kind'] == 'lean' and not found and name.startswith('u'):
                continue          # not every rate is promised
            expect(len(found) == 1, '{} is drawn {} times', name, len(found))
            ax, ln = found[0]
            tx, y = figs.xy(ln)
            close(tx, t, 'times of %s' % name, rtol=1e-12, atol=1e-12)
            lab = ax.get_ylabel()
            k = factor(lab) if unit.startswith('rad') else 1.0
            expect({'r': 'rad', 'm': 'm]', 'N': 'Nm'}[unit[0]] in lab.replace(
                'deg', 'rad'), '{} [{}] is labelled {!r}', name, unit, lab)
            for part in ('deg', 'm]', 'Nm'):
                if part in lab:
                    expect({'deg': 'rad', 'm]': 'm', 'Nm': 'Nm'}[part] in
                           unit, '{} [{}] is drawn in {!r}', name, unit, lab)
            expect(('/s' in lab) == ('/s' in unit), '{} [{}] is drawn in '
                   '{!r}', name, unit, lab)
            close(y, k*want, '%s in the unit of %r' % (name, lab),
                  rtol=1e-9, atol=1e-12)
        expect(not seen, 'unexpected lines {!r}', sorted(seen))
        expect('Time' in axes[-1].get_xlabel(), 'time axis label {!r}',
               axes[-1].get_xlabel())
    equal(x0.tolist(), case['x0'], 'initial conditions after plotting')
    ctx.label(case['kind'])
    ctx.nontrivial(f is not None)


@st.composite
def gain_cases(draw):
    p = draw(gen.meijaard_feedback())
    n = draw(st.integers(1, 6))
    key = draw(st.sampled_from(['v', 'g', 'c', 'mB']))
    ints = draw(st.booleans())
    vals = [float(k + 1) for k in range(n)] if ints else \
        draw(ascending(key, n))
    swept = {k: [draw(gen.nz(-50.0, 50.0, 1e-3)) for _ in range(n)]
             for k in draw(gen.subset(gen.GAINS))}
    scal = {k: draw(gen.nz(-50.0, 50.0, 1e-3))
            for k in draw(gen.subset(gen.GAINS)) if k not in swept}
    return {'p': p, 'key': key, 'vals': vals, 'ints': ints, 'swept': swept,
            'scal': scal, 'how': draw(st.sampled_from(api.HOW)),
            'last': draw(st.booleans()),
            'axes': draw(st.sampled_from([None, 'array', 'list'])),
            'plain': draw(st.booleans())}


@R.prop(gain_cases, quick=80, thorough=1500, shards=2,
        rule='at least one gain is swept')
def gains(case, ctx):
    vals = api.as_given(case['vals'], case['how'])
    if case['ints']:
        vals = type(vals)([int(k) for k in case['vals']]) if isinstance(
            vals, (list, tuple)) else np.array(case['vals']).astype(int)
    over = {k: api.as_given(v, case['how'])
            for k, v in case['swept'].items()}
    over.update(case['scal'])
    over = dict(over, **{case['key']: vals}) if case['last'] else dict(
        {case['key']: vals}, **over)
    model = api.fbmodel(case['p'])
    with figs.Closing() as plt:
        kw = {}
        if case['axes']:
            _, axs = plt.subplots(2, 4)
            kw['axes'] = axs if case['axes'] == 'array' else [
                list(r) for r in axs]
        axes = model.plot_gains(**kw, **over)
        flat = np.asarray(axes)
        expect(flat.shape == (2, 4), 'axes have shape {}', flat.shape)
        if case['axes']:
            expect(all(a is b for a, b in zip(flat.ravel(), axs.ravel())),
                   'not drawn in the given axes')
        for ax, name in zip(flat.ravel(), gen.GAINS):
            expect(len(ax.lines) == 1, '{} lines for {}', len(ax.lines), name)
            x, y = figs.xy(ax.lines[0])
            if name in case['swept']:
                want = case['swept'][name]
            else:
                want = [case['scal'].get(name, case['p'][name])]*len(x)
            close(x, case['vals'], 'horizontal positions of %s' % name)
            close(y, want, 'gain %s' % name)
            expect(model.parameter_set.par_strings[name] in ax.get_title(),
                   'title of {}: {!r}', name, ax.get_title())
        for ax in flat[1]:
            expect(case['key'] in ax.get_xlabel(), 'horizontal axis {!r}',
                   ax.get_xlabel())
    if case['swept']:
        with figs.Closing():
            over.pop(case['key'])
            raises(ValueError, lambda: model.plot_gains(**over),
                   'gains against nothing')
    equal(dict(model.parameter_set.parameters), dict(case['p']),
          'parameters after plotting')
    ctx.label(str(case['axes']), case['key'])
    ctx.nontrivial(bool(case['swept']))


@R.prop(lambda: st.tuples(gen.meijaard(), st.lists(
    gen.fl(0.1, 12.0), min_size=2, max_size=5, unique=True), st.booleans(),
    st.booleans()), quick=40, thorough=600, shards=2,
        rule='drawn in given axes, or angles beyond 90 degrees')
def controllability_plots(case, ctx):
    """(A private method: if it is gone there is nothing to check.)"""
    p, speeds, acute, own = case
    model = api.mmodel(p)
    if not hasattr(model, '_plot_modal_controllability') or \
            not hasattr(model, '_calc_modal_controllability'):
        return
    speeds = np.sort(speeds)
    want = np.degrees(model._calc_modal_controllability(acute=acute,
                                                        v=speeds))
    with figs.Closing() as plt:
        kw = {'axes': plt.subplots(4, 2)[1]} if own else {}
        axes = model._plot_modal_controllability(acute=acute, v=speeds, **kw)
        expect(np.shape(axes) == (4, 2), 'axes have shape {}',
               np.shape(axes))
        expect(not own or axes is kw['axes'], 'not drawn in the given axes')
        for i in range(4):
            expect(str(i + 1) in axes[i, 0].get_ylabel(), 'mode {} has '
                   'label {!r}', i + 1, axes[i, 0].get_ylabel())
            for j in range(2):
                ln, = axes[i, j].lines
                x, y = figs.xy(ln)
                close(x, speeds, 'speeds')
                close(y, want[:, i, j], 'angles of mode %d, input %d' % (
                    i + 1, j + 1), atol=1e-9)
        for j, s in enumerate(['phi', 'delta']):
            expect(s in axes[0, j].get_title(), 'title of column {}', j)
            expect('v' in axes[3, j].get_xlabel(), 'horizontal axis of '
                   'column {}', j)
    equal(dict(model.parameter_set.parameters), dict(p),
          'parameters after plotting')
    ctx.nontrivial(own or not acute)
