"""C23: plots of bicycles: geometry, eigenvalues against speed, Bode plots."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from bicycleparameters import plot as bplot
from bicycleparameters.main import Bicycle
from vlib import api, figs, gen, measure, ref
from vlib.core import Registry, Skip, close, equal, expect, numeric

R = Registry('C23')


# -- drawing of a bicycle -------------------------------------------------

@st.composite
def bicycles(draw):
    how = draw(st.sampled_from(['file', 'measured', 'measured', 'parts']))
    if how == 'file':
        p = draw(gen.meijaard())
        p.pop('v')
        if draw(st.integers(0, 5)) == 0:
            p.pop('IHyy')
        if draw(st.integers(0, 3)) == 0:
            # frame and fork meet the steer axis in one point
            p.update(lam=0.0, rF=p['rR'])
        return {'how': how, 'p': p}
    c = {'how': how, 'b': draw(measure.bikes())}
    if how == 'measured' and draw(st.integers(0, 3)):
        c['noise'] = draw(st.lists(gen.fl(-1.0, 1.0), min_size=5,
                                   max_size=16))
    return c


@st.composite
def drawings_(draw):
    return {'bike': draw(bicycles()),
            'flags': [draw(st.booleans()) for _ in range(3)],
            'defaults': draw(st.booleans()), 'show': draw(st.booleans()),
            'std': draw(st.sampled_from([None, None, 1e-3])),
            'twice': draw(st.integers(0, 4)) == 0}


def build(case, ctx, std=None):
    """Bicycle, its parameters, and the pendulum measurements or None."""
    q = case['bike'] if 'bike' in case else case
    root, name = ctx.tmp, 'Testbike'
    if q['how'] == 'file':
        par, mp = dict(q['p']), None
    else:
        mp, par = measure.forward(q['b'])
        if 'noise' in q:
            par = measure.evaluate(measure.disturb(mp, q['noise']))
    if q['how'] == 'measured':
        api.write_bike(root, name, measured=mp)
    else:
        mp = None
        api.write_bike(root, name, benchmark=par if std is None else {
            k: [v, std*abs(v) + 1e-9] for k, v in par.items()})
    return Bicycle(name, pathToData=root), par, mp


def take(items, pred, what):
    for k, it in enumerate(items):
        if pred(it):
            return items.pop(k)
    expect(False, 'not drawn: {} (drawn: {!r})', what, items)


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.max(np.abs(a - b)) <= tol


def places(par):
    """Mass centres (x, z up) of the parts."""
    out = {'R': (0.0, par['rR']), 'F': (par['w'], par['rF'])}
    for b in 'BHGS':
        if 'm' + b in par:
            out[b] = (par['x' + b], -par['z' + b])
    if 'mD' in par:
        out['D'] = out['F']
    return out


def frame(par):
    down = np.array([np.sin(par['lam']), -np.cos(par['lam'])])
    foot = np.array([par['w'] + par['c'], 0.0])
    rear = np.array([0.0, par['rR']])
    front = np.array([par['w'], par['rF']])
    a = foot + down*(down @ (rear - foot))
    b = foot + down*(down @ (front - foot))
    return rear, a, b, front, foot


def pendulum_axis(line, centre):
    """Ends of the part of the measured line next to the mass centre."""
    nrm, off, J, be = line
    u = np.array([math.cos(be), math.sin(be)])
    nrm = nrm*[1, -1]
    mid = np.array(centre) + nrm*(off - nrm @ centre)
    return np.array([mid - u*J/2, mid + u*J/2])


def plane_inertia(par, b):
    """Inertia in the plane of the drawing (x, up)."""
    if b in 'RFD':
        return np.diag([par['I%sxx' % b]]*2)
    ixz = -par['I%sxz' % b]
    return np.array([[par['I%sxx' % b], ixz], [ixz, par['I%szz' % b]]])


def check_ellipses(seen, par, places_):
    for b, pos in places_.items():
        I = plane_inertia(par, b)
        lo, hi = np.linalg.eigvalsh(I)
        # a major axis half the largest moment, and in the direction of u a
        # radius inversely proportional to the root of the moment about u
        want = (hi/4)**2*lo*np.linalg.inv(I)

        def matrix(e):
            t = np.deg2rad(e[3])
            u = np.array([np.cos(t), np.sin(t)])
            n = np.array([-np.sin(t), np.cos(t)])
            return (np.outer(u, u)*(e[1]/2)**2 + np.outer(n, n)*(e[2]/2)**2)
        take(seen, lambda e: near(e[0], pos) and near(
            matrix(e), want, 1e-7*(hi**2) + 1e-12),
            'ellipse at %r with matrix %r of part %s; matrices drawn %r' % (
                pos, want.tolist(), b, [(e[0], matrix(e).tolist())
                                        for e in seen]))


@R.prop(drawings_, quick=260, thorough=4000, shards=8,
        rule='ellipses or pendulum axes are drawn')
def geometry(case, ctx):
    bike, par, mp = build(case, ctx, case['std'])
    before = dict(bike.parameters['Benchmark'])
    pend, coms, ells = [True]*3 if case['defaults'] else case['flags']
    kw = {} if case['defaults'] else {
        'pendulum': pend, 'centerOfMass': coms, 'inertiaEllipse': ells}
    pos = places(par)
    rear, a, b, front, foot = frame(par)
    if min(np.linalg.eigvalsh(plane_inertia(par, b))[0] for b in pos) <= 0:
        raise Skip
    with figs.Closing():
        fig = bike.plot_bicycle_geometry(show=case['show'], **kw)
        expect(len(figs.shown) == case['show'], '{} windows opened, asked '
               'for {}', len(figs.shown), case['show'])
        if case['twice']:
            fig = bike.plot_bicycle_geometry(show=False, **kw)
        expect(len(fig.axes) == 1, '{} axes', len(fig.axes))
        ax = fig.axes[0]
        s = figs.shapes(ax)
        circles, ellipses, wedges = s['circle'], s['ellipse'], s['wedge']
        lines = figs.segments(ax)
        texts = [(t.get_text(), t.get_position()) for t in ax.texts]
        for x, r, what in ((0.0, par['rR'], 'rear wheel'),
                           (par['w'], par['rF'], 'front wheel')):
            take(circles, lambda c: near(c[0], (x, r)) and near(c[1], r),
                 what)
        take(lines, lambda q: q.shape == (2, 2) and near(
            sorted(q.tolist()), [(-par['rR'], 0.0),
                                 (par['w'] + par['rF'], 0.0)]), 'ground')
        take(lines, lambda q: near(q, [rear, a, b, front]),
             'frame and fork %r' % ([rear, a, b, front],))
        take(lines, lambda q: near(q, [b, foot], 1e-6),
             'steer axis from %r to %r' % (b, foot))
        if coms:
            for n, xy in pos.items():
                if n == 'D':
                    continue
                c = take(circles, lambda c: near(c[0], xy) and c[1] < 0.09,
                         'mass centre of %s at %r' % (n, xy))
                for k in range(2):
                    take(wedges, lambda w: near(w[0], xy) and w[1] == c[1],
                         'quadrants of the symbol of ' + n)
                t = take(texts, lambda t: t[0] == n, 'label ' + n)
                expect(np.hypot(*(np.array(t[1]) - xy)) < 3*c[1],
                       'label {} at {!r}, mass centre at {!r}', n, t[1], xy)
        if ells:
            check_ellipses(ellipses, par, pos)
        if pend and mp is not None:
            axes = {}
            measure.evaluate(mp, axes)
            for n in axes:
                for k, line in enumerate(axes[n]):
                    ends = pendulum_axis(line, pos[n])
                    got = take(lines, lambda s_: near(s_, ends, 1e-5) or
                               near(s_[::-1], ends, 1e-5), 'axis %d of the '
                               'pendulum of %s: %r' % (k + 1, n, ends))
                    take(texts, lambda t: t[0] == str(k + 1) and (
                        near(t[1], got[0]) or near(t[1], got[1])),
                        'number %d at its pendulum axis' % (k + 1))
        for name, left in (('circles', circles), ('ellipses', ellipses),
                           ('wedges', wedges), ('lines', lines),
                           ('texts', texts)):
            expect(not left, 'more is drawn than asked for: {} {!r}', name,
                   left)
        lo, hi = ax.get_ylim()
        top = max(2*par['rR'], 2*par['rF'], a[1], b[1])
        low = min(0.0, a[1], b[1])
        expect(lo <= low + 1e-9 and hi >= top - 1e-9, 'vertical limits {!r} '
               'cut off the bicycle from {!r} to {!r}', (lo, hi), low, top)
        expect(ax.get_aspect() in ('equal', 1.0), 'aspect')
        expect('Testbike' in ax.get_title(), 'title {!r}', ax.get_title())
        expect('x' in ax.get_xlabel() and '-z' in ax.get_ylabel().replace(
            '\u2212', '-'), 'labels')
    after = bike.parameters['Benchmark']
    expect(list(after) == list(before) and all(
        after[k] is before[k] for k in after), 'parameters were changed')
    ctx.label(case['bike']['how'] + (
        ', disturbed' if 'noise' in case['bike'] else ''),
        'uncertain' if case['std'] else 'exact')
    ctx.nontrivial(ells or (pend and mp is not None))


# -- eigenvalues against speed --------------------------------------------

@st.composite
def speed_cases(draw):
    n = draw(st.integers(2, 12))
    v0 = draw(gen.fl(-6.0, 8.0))
    dv = draw(gen.fl(0.02, 2.0))
    speeds = [v0 + dv*k for k in range(n)]
    if draw(st.booleans()):
        speeds = list(draw(st.permutations(speeds)))
    p = draw(gen.meijaard())
    p.pop('v')
    q = draw(gen.meijaard())
    q.pop('v')
    return {'p': p, 'q': q, 'speeds': speeds, 'largest': draw(st.booleans()),
            'generic': draw(st.booleans()), 'fig': draw(st.booleans()),
            'color': draw(st.sampled_from(['red', 'C3', '#112233'])),
            'style': draw(st.sampled_from(['-', '--', ':'])),
            'grid': draw(st.booleans()), 'legend': draw(st.sampled_from([True, False, None])),
            'show': draw(st.sampled_from([None, False, True])),
            'both': draw(st.sampled_from([None, None, 'own', 'default']))}


def oracle(p, speeds):
    """Eigenvalues from the mechanics, speed by speed."""
    M, C1, K0, K2 = ref.meijaard(p)
    out = []
    for v in speeds:
        A = np.zeros((4, 4))
        A[0, 2] = A[1, 3] = 1.0
        A[2:, :2] = -np.linalg.solve(M, p['g']*K0 + v*v*K2)
        A[2:, 2:] = -np.linalg.solve(M, v*C1)
        out.append(np.linalg.eigvals(A))
    return np.array(out)


def check_rows(rows, want, tol, what):
    """rows: lines x speeds; want: speeds x values."""
    for k in range(want.shape[0]):
        g, w = np.sort(rows[:, k]), np.sort(want[k])
        close(g, w, '%s at speed number %d' % (what, k), rtol=0,
              atol=tol[k])


def slack(p, speeds, w):
    """Eigenvalues that nearly coincide are ill conditioned."""
    out = []
    for k in range(len(speeds)):
        e = w[k]
        size = np.abs(e).max() + 1.0
        d = np.abs(e[:, None] - e[None, :]) + np.eye(4)*1e9
        out.append(1e-9*size*(1.0 + (size/max(d.min(), 1e-7*size))))
    return np.array(out)


@R.prop(speed_cases, quick=200, thorough=3000, shards=8,
        rule='some eigenvalues are not real')
def eigenvalues_against_speed(case, ctx):
    api.write_bike(ctx.tmp, 'Abike', benchmark=case['p'])
    api.write_bike(ctx.tmp, 'Bbike', benchmark=case['q'])
    bikes = [Bicycle(n, pathToData=ctx.tmp) for n in ('Abike', 'Bbike')]
    given = np.array(case['speeds'])
    speeds = np.sort(given)
    keep = given.copy()
    with figs.Closing() as plt:
        if case['both']:
            kw = {'largest': case['largest']}
            if case['both'] == 'own':
                kw.update(colors=['red', 'blue'], linestyles=['-', ':'])
            if case['show'] is not None:
                kw['show'] = case['show']
            fig = bplot.plot_eigenvalues(bikes, given, **kw)
            expect(len(figs.shown) == bool(case['show']), '{} windows '
                   'opened, asked for {}', len(figs.shown), case['show'])
            used, generic = [case['p'], case['q']], True
        else:
            kw = dict(largest=case['largest'], generic=case['generic'],
                      color=case['color'], linestyle=case['style'],
                      grid=case['grid'])
            if case['legend'] is not None:
                kw['show_legend'] = case['legend']
            own = plt.subplots()[0] if case['fig'] else None
            if own is not None:
                kw['fig'] = own
            if case['show'] is not None:
                kw['show'] = case['show']
            fig = bikes[0].plot_eigenvalues_vs_speed(given, **kw)
            if own is not None:
                expect(fig is own, 'not drawn in the given figure')
            expect(len(figs.shown) == bool(case['show']), '{} windows '
                   'opened, asked for {}', len(figs.shown), case['show'])
            used = [case['p']]
            generic = case['generic'] or case['largest']
        ax = fig.axes[0]
        lines = []
        for ln in figs.data_lines(ax):
            x, y = figs.xy(ln)
            close(x, speeds, 'speeds of a line', rtol=1e-12, atol=1e-12)
            lines.append((ln, y))
        zero = [q for q in lines if not np.any(q[1]) and q[0].get_label()
                .startswith('_') and figs.rgba(q[0].get_color()) ==
                figs.rgba('black') and q[0].get_linewidth() == 1.5]
        expect(len(zero) >= len(used), 'axis line is missing')
        for q in zero[:len(used)]:
            lines.remove(q)
        per = 1 if case['largest'] else 8
        expect(len(lines) == per*len(used), '{} lines are drawn, expected '
               '{}', len(lines), per*len(used))
        for i, p in enumerate(used):
            mine = lines[per*i:per*(i + 1)]
            w = oracle(p, speeds)
            tol = slack(p, speeds, w)
            if case['largest']:
                check_rows(np.array([mine[0][1]]),
                           w.real.max(axis=1)[:, None], tol,
                           'largest real part')
                expect(mine[0][0].get_label() == ['Abike', 'Bbike'][i],
                       'label {!r}', mine[0][0].get_label())
                continue
            if generic:
                names = [q[0].get_label() for q in mine
                         if not q[0].get_label().startswith('_')]
                expect(set(names) <= {'Abike', 'Bbike'} and
                       ['Abike', 'Bbike'][i] in names, 'labels {!r}', names)
                expect(len({figs.rgba(q[0].get_color()) for q in mine}) == 1,
                       'lines of a bicycle have several colors')
                if case['both'] == 'own':
                    equal(figs.rgba(mine[0][0].get_color()),
                          figs.rgba(['red', 'blue'][i]), 'color')
                elif not case['both']:
                    equal(figs.rgba(mine[0][0].get_color()),
                          figs.rgba(case['color']), 'color')
                im = [q for q in mine[:4]]
                re = [q for q in mine[4:]]
            else:
                im = [q for q in mine if q[0].get_linestyle() == '--']
                re = [q for q in mine if q[0].get_linestyle() == '-']
                for group, word in ((im, 'Imaginary'), (re, 'Real')):
                    labs = sorted(q[0].get_label() for q in group)
                    equal(labs, sorted([word + ' Weave']*2 + [
                        word + ' Capsize', word + ' Caster']), 'labels')
            expect(len(im) == 4 and len(re) == 4, '{} imaginary and {} real '
                   'lines', len(im), len(re))
            check_rows(np.array([q[1] for q in re]), w.real, tol,
                       'real parts')
            check_rows(np.array([q[1] for q in im]), np.abs(w.imag), tol,
                       'imaginary parts')
            # the same mode: real and imaginary parts belong together
            for k in range(len(speeds)):
                pairs = list(zip([q[1][k] for q in re],
                                 [q[1][k] for q in im]))
                left = [(z.real, abs(z.imag)) for z in w[k]]
                for g in pairs:
                    d = [max(abs(g[0] - q[0]), abs(g[1] - q[1]))
                         for q in left]
                    j = int(np.argmin(d))
                    expect(d[j] <= tol[k], 'real and imaginary parts of '
                           'different modes are paired: {!r}, eigenvalues '
                           '{!r}', pairs, w[k])
                    left.pop(j)
        if not case['both']:
            shown = ax.get_legend() is not None
            if not generic or case['legend'] is False:
                equal(shown, case['legend'] is not False, 'legend is shown')
            if not generic:
                expect('Abike' in ax.get_title(), 'title {!r}',
                       ax.get_title())
            close(ax.get_xlim(), [speeds[0], speeds[-1]], 'limits', 1e-12,
                  1e-12)
        expect('m/s' in ax.get_xlabel() and '1/s' in ax.get_ylabel(),
               'labels {!r} {!r}', ax.get_xlabel(), ax.get_ylabel())
    equal(given.tolist(), keep.tolist(), 'speeds of the caller')
    ctx.label('both' if case['both'] else 'one',
              'largest' if case['largest'] else 'all')
    ctx.nontrivial(bool(np.any(np.imag(oracle(case['p'], speeds)))))


# -- Bode plots -----------------------------------------------------------

@st.composite
def bode_cases(draw):
    p = draw(gen.meijaard())
    p.pop('v')
    q = draw(gen.meijaard())
    q.pop('v')
    return {'p': p, 'q': q, 'u': draw(st.integers(0, 1)),
            'y': draw(st.integers(0, 3)),
            'speeds': draw(st.lists(gen.fl(0.3, 12.0), min_size=1,
                                    max_size=3, unique=True)),
            'what': draw(st.sampled_from(['one', 'speeds', 'bicycles'])),
            'fig': draw(st.booleans())}


def response(p, v, u, y, w):
    """Frequency response, and how well it is determined."""
    M, C1, K0, K2 = ref.meijaard(p)
    K = p['g']*K0 + v*v*K2
    out = np.zeros(len(w), complex)
    bad = np.zeros(len(w))
    for k, f in enumerate(w):
        D = -f*f*M + 1j*f*v*C1 + K
        q = np.linalg.inv(D)[:, u]
        out[k] = q[y % 2]*(1j*f if y > 1 else 1.0)
        bad[k] = np.linalg.cond(D)*np.linalg.norm(q)/max(abs(q[y % 2]),
                                                         1e-300)
    return out, bad


def check_bode(mag, phase, p, v, u, y, w, what):
    G, bad = response(p, v, u, y, w)
    if bad.max() > 1e7 or np.abs(G).min() < 1e-12:
        raise Skip
    mag, phase = numeric(mag, 'magnitude', w.shape), numeric(
        phase, 'phase', w.shape)
    close(mag, 20*np.log10(np.abs(G)), what + ': magnitude', rtol=0,
          atol=1e-5)
    off = (phase - np.degrees(np.angle(G)) + 180.0) % 360.0 - 180.0
    close(off, 0*off, what + ': phase (off by this much, in whole turns '
          'apart)', rtol=0, atol=1e-4)
    step = np.abs(np.diff(phase))
    expect(step.max() <= 180.0 + 1e-6, '{}: phase jumps by {}', what,
           step.max())


@R.prop(bode_cases, quick=64, thorough=800, shards=8, rule='speed not zero')
def bode(case, ctx):
    api.write_bike(ctx.tmp, 'Abike', benchmark=case['p'])
    api.write_bike(ctx.tmp, 'Bbike', benchmark=case['q'])
    bikes = [Bicycle(n, pathToData=ctx.tmp) for n in ('Abike', 'Bbike')]
    u, y, v = case['u'], case['y'], case['speeds'][0]
    with figs.Closing() as plt:
        own = plt.subplots(2)[0] if case['fig'] else None
        kw = {} if own is None else {'fig': own}
        if case['what'] == 'one':
            mag, phase, fig = bikes[0].plot_bode(v, u, y, **kw)
            runs = [(case['p'], v, None)]
        elif case['what'] == 'speeds':
            fig = bikes[0].compare_bode_speeds(case['speeds'], u, y, **kw)
            runs = [(case['p'], s, str(s)) for s in case['speeds']]
        else:
            fig = bplot.compare_bode_bicycles(bikes, v, u, y, **kw)
            runs = [(case['p'], v, 'Abike'), (case['q'], v, 'Bbike')]
        if own is not None:
            expect(fig is own, 'not drawn in the given figure')
        expect(len(fig.axes) == 2, '{} axes', len(fig.axes))
        top, low = fig.axes
        expect(len(top.lines) == len(runs) == len(low.lines), 'lines: {} and '
               '{} for {} systems', len(top.lines), len(low.lines),
               len(runs))
        for k, (p, s, name) in enumerate(runs):
            w, m = figs.xy(top.lines[k])
            w2, ph = figs.xy(low.lines[k])
            equal(w.tolist(), w2.tolist(), 'frequencies')
            check_bode(m, ph, p, s, u, y, w, 'line %d' % k)
            if case['what'] == 'one':
                close(m, mag, 'returned magnitude')
                close(ph, phase, 'returned phase', atol=1e-9)
            else:
                expect(-180.0 - 1e-6 <= ph[0] <= 180.0 + 1e-6, 'phase is '
                       'not matched around zero: starts at {}', ph[0])
                expect(name in top.lines[k].get_label(), 'label {!r}',
                       top.lines[k].get_label())
        words = ['Roll', 'Steer'][u] + ' Torque', ['Roll Angle',
                                                   'Steer Angle', 'Roll Rate',
                                                   'Steer Rate'][y]
        expect(all(q in top.get_title() for q in words), 'title {!r}',
               top.get_title())
    ctx.label(case['what'])
    ctx.nontrivial()
