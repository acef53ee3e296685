"""C24: the web app, driven over HTTP the way a browser does."""
import base64
import itertools
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

import bicycleparameters as bp
from bicycleparameters import app as webapp
from vlib import api, figs, gen, measure
from vlib.core import Registry, Skip, close, equal, expect
from checks import C23
from checks.C23 import frame, near, oracle, plane_inertia, slack

R = Registry('C24')
QUICK = 1.5
DATA = os.path.join(os.path.dirname(os.path.abspath(bp.__file__)),
                    'app-data', 'bicycles')
BIKES = sorted(os.listdir(DATA))
# wait indicators of the app sleep for a second and say nothing
SPINNERS = ('geometry-load', 'eigen-load')


def file_values(name):
    out = {}
    with open(os.path.join(DATA, name, 'Parameters',
                           name + 'Benchmark.txt')) as f:
        for line in f:
            line = line.split('#')[0]
            if '=' in line:
                k, v = line.split('=')
                out[k.strip()] = float(v.split('+/-')[0])
    return out


FILES = {n: file_values(n) for n in BIKES}
SHOWN = ['w', 'c', 'lam', 'g'] + ['%s%s' % (a, b) for b in 'RF'
                                  for a in 'rm'] + [
    'I%s%s' % (b, a) for b in 'RFBH' for a in ('xx', 'yy')] + [
    '%s%s' % (a, b) for b in 'BH' for a in 'mxz'] + [
    'I%s%s' % (b, a) for b in 'BH' for a in ('zz', 'xz')]


# -- a browser ------------------------------------------------------------

def walk(node):
    if isinstance(node, dict):
        if 'props' in node:
            yield node
            for v in node['props'].values():
                yield from walk(v)
    elif isinstance(node, list):
        for v in node:
            yield from walk(v)


def decode(v):
    if isinstance(v, dict):
        if 'bdata' in v and 'dtype' in v:
            a = np.frombuffer(base64.b64decode(v['bdata']), v['dtype'])
            return a.astype(float)
        return {k: decode(q) for k, q in v.items()}
    if isinstance(v, list):
        return [decode(q) for q in v]
    return v


class Browser:
    """Keeps the properties of the page and calls the app for every change,
    as the page does."""

    def __init__(self, order):
        self.http = webapp.server.test_client()
        self.order = order
        self.props = {}
        layout = self.get('/_dash-layout')
        self.ids = {}
        for node in walk(layout):
            i = node['props'].get('id')
            if i is not None:
                self.ids[i] = node
                for k, v in node['props'].items():
                    self.props['%s.%s' % (i, k)] = v
        self.callbacks = []
        for d in self.get('/_dash-dependencies'):
            outs = d['output'].strip('.').split('...')
            ins = ['%s.%s' % (q['id'], q['property']) for q in d['inputs']]
            if any(o.split('.')[0] in SPINNERS for o in outs):
                continue
            self.callbacks.append((d, outs, ins))
        self.change([])

    def get(self, url):
        r = self.http.get(url)
        expect(r.status_code == 200, '{} answers {}', url, r.status_code)
        return r.get_json()

    def change(self, changed):
        """changed: properties set by the user; none when the page loads."""
        changed = list(changed)
        first = not changed
        done, todo = [], list(self.callbacks)
        while todo:
            ready = None
            for c in todo:
                others = [o for q in todo if q is not c for o in q[1]]
                if not set(c[2]) & set(others):
                    ready = c
                    break
            if ready is None:
                raise RuntimeError('circular callbacks')
            todo.remove(ready)
            d, outs, ins = ready
            mine = [p for p in changed if p in ins]
            if not mine and not (first and not done) and not first:
                continue
            self.call(d, outs, ins, mine[::-1] if self.order else mine)
            changed += outs
            done.append(d)

    def call(self, d, outs, ins, changed):
        def ref_(p):
            i, k = p.rsplit('.', 1)
            return {'id': i, 'property': k, 'value': self.props.get(p)}
        multi = d['output'].startswith('..')
        o = [{'id': p.rsplit('.', 1)[0], 'property': p.rsplit('.', 1)[1]}
             for p in outs]
        r = self.http.post('/_dash-update-component', json={
            'output': d['output'], 'outputs': o if multi else o[0],
            'inputs': [ref_(p) for p in ins],
            'state': [dict(q, value=self.props.get(
                '%s.%s' % (q['id'], q['property']))) for q in d['state']],
            'changedPropIds': changed})
        expect(r.status_code == 200, 'the app answers {} when {!r} changed to '
               '{!r}', r.status_code, changed,
               {p: self.props.get(p) for p in changed})
        got = json.loads(r.data)['response']
        for p in outs:
            i, k = p.rsplit('.', 1)
            self.props[p] = got[i][k]

    # tables

    def tables(self):
        """Displayed value and cell of every parameter of the three
        tables."""
        out = {}
        for t in ('wheel-table', 'frame-table', 'general-table'):
            cols = self.ids[t]['props']['columns']
            rows = self.props[t + '.data']
            for row, (n, r) in zip(rows, enumerate(rows)):
                for c in cols:
                    if c['id'] == 'label':
                        continue
                    key = parameter(row['label'], c['name'])
                    expect(key is not None and key not in out, 'row {!r} '
                           'column {!r} of {}', row['label'], c['name'], t)
                    out[key] = (row.get(c['id']), (t, n, c['id']))
        return out

    def edit(self, cell, value):
        t, n, c = cell
        data = json.loads(json.dumps(self.props[t + '.data']))
        data[n][c] = value
        self.props[t + '.data'] = data
        self.change([t + '.data'])


def parameter(label, column):
    """Parameter shown in the row with this label, in this column."""
    if column == 'Parameters':
        for word, p in (('Wheel Base', 'w'), ('Trail', 'c'), ('Tilt', 'lam'),
                        ('Gravity', 'g')):
            if word in label:
                return p
    body = column[column.index('[') + 1:column.index(']')]
    for word, p in (('Radius', 'r%s'), ('Mass X', 'x%s'), ('Mass Z', 'z%s'),
                    ('Mass [kg]', 'm%s'), ('Ixx', 'I%sxx'),
                    ('Iyy', 'I%syy'), ('Izz', 'I%szz'), ('Ixz', 'I%sxz')):
        if word in label:
            return p % body


UNITS = {'w': '[m]', 'c': '[m]', 'lam': '[degrees]', 'g': '[N/kg]'}


# -- what the page must show ----------------------------------------------

def check_tables(b, par):
    shown = b.tables()
    expect(set(shown) == set(SHOWN), 'tables show {!r}', sorted(shown))
    for k in SHOWN:
        v = par[k]
        want = math.degrees(v) if k == 'lam' else v
        close(shown[k][0], want, 'table entry of ' + k, rtol=1e-9,
              atol=1e-12)


def traces(fig):
    out = []
    for t in fig['data']:
        x = np.asarray(t['x'], float)
        y = np.asarray(t['y'], float)
        expect(x.shape == y.shape, 'shapes of trace {!r}', t.get('name'))
        out.append((t.get('name'), np.array([x, y]).T, t))
    return out


def pick(ts, name):
    got = [t for t in ts if t[0] == name]
    expect(len(got) == 1, '{} traces named {!r}', len(got), name)
    return got[0][1]


def on_circle(p, centre, r, what):
    d = np.hypot(*(p - centre).T)
    close(d, r + 0*d, what + ': distance from its centre', rtol=1e-9,
          atol=1e-9)
    expect(near(p[0], p[-1], 1e-9) and len(p) > 20 and np.hypot(
        *np.diff(p, axis=0).T).max() < 0.5*r, '{} is not a whole circle',
        what)


def check_geometry(fig, par, options):
    ts = traces(fig)
    rear, a, b, front, foot = frame(par)
    ground = pick(ts, 'Ground')
    expect(near(sorted(ground.tolist()), [(-par['rR'], 0.0), (
        par['w'] + par['rF'], 0.0)]), 'ground from {!r}', ground)
    on_circle(pick(ts, 'Rear wheel'), (0.0, par['rR']), par['rR'],
              'rear wheel')
    on_circle(pick(ts, 'Front wheel'), (par['w'], par['rF']), par['rF'],
              'front wheel')
    close(pick(ts, 'Bicycle'), np.array([rear, a, b, front]),
          'frame and fork', rtol=0, atol=1e-7)
    close(pick(ts, 'Steer axis'), np.array([b, foot]), 'steer axis',
          rtol=0, atol=1e-6)
    pos = {'R': rear, 'F': front,
           'B': np.array([par['xB'], -par['zB']]),
           'H': np.array([par['xH'], -par['zH']])}
    for n in 'GS':
        if 'm' + n in par:
            pos[n] = np.array([par['x' + n], -par['z' + n]])
    notes = {}
    for n in fig['layout'].get('annotations', []):
        expect(n['text'] not in notes, 'two labels {!r}', n['text'])
        notes[n['text']] = (n['x'], n['y'])
    coms = [t[1] for t in ts if t[0] == 'COM']
    if 'centers' in options:
        expect(set(notes) == set(pos) and len(coms) == len(pos), 'mass centres '
               'labelled {!r} and {} marked', sorted(notes), len(coms))
        for n, p in pos.items():
            expect(np.hypot(*(np.array(notes[n]) - p)) < 0.12, 'label {} at '
                   '{!r}, mass centre at {!r}', n, notes[n], p)
            expect(any(near(q, [p, p], 1e-9) for q in coms), 'mass centre of '
                   '{} at {!r} not marked: {!r}', n, p, coms)
    else:
        expect(not notes and not coms, 'mass centres are shown: {!r}',
               notes)
    ells = {t[0].split()[-1]: t[1] for t in ts
            if t[0] and t[0].startswith('Inertia')}
    if 'ellipse' not in options:
        expect(not ells, 'inertia is shown: {!r}', list(ells))
    else:
        if 'mD' in par:
            pos['D'] = front
        expect(set(ells) == set(pos), 'inertias shown: {!r}',
               sorted(ells))
        scale = []
        for n, q in ells.items():
            I = plane_inertia(par, n)
            lo, hi = np.linalg.eigvalsh(I)
            d = q - pos[n]
            close(d.min(axis=0), -d.max(axis=0), 'ellipse of %s is not '
                  'around its mass centre' % n, rtol=0.01,
                  atol=0.01*np.abs(d).max())
            # radius in the direction of u: inverse root of moment about u
            s = np.einsum('ni,ij,nj->n', d, I, d)/(hi*hi*lo)
            close(s/s[0], 1 + 0*s, 'ellipse of %s: shape' % n, rtol=1e-6)
            scale.append(s[0])
        close(np.array(scale)/scale[0], 1.0 + 0*np.array(scale), 'relative '
              'sizes of the ellipses', rtol=1e-6)
    used = {'Ground', 'Rear wheel', 'Front wheel', 'Bicycle', 'Steer axis',
            'Pendulum' if 'pendulum' in options else 'Bicycle'}
    other = [t[0] for t in ts if t[0] not in used and t[0] != 'COM' and not (
        t[0] or '').startswith('Inertia')]
    expect('centers' in options or not other, 'also drawn: {!r}', other)


def check_eigen(fig, par, options, slider, dense=True):
    ts = traces(fig)
    groups = {}
    for kind in ('Re', 'Im'):
        groups[kind] = [(t[0][3:], t[1]) for t in ts
                        if t[0] and t[0].startswith(kind + ' ')]
        names = sorted(q[0] for q in groups[kind])
        expect(len(names) == 4 and len(ts) == 8, 'traces {!r}',
               [t[0] for t in ts])
        expect(names[2:] == ['Weave', 'Weave'], 'traces {!r}', names)
    speeds = ts[0][1][:, 0]
    close([speeds[0], speeds[-1]], slider, 'range of speeds', rtol=1e-12,
          atol=1e-12)
    expect(not dense or len(speeds) == 1 or (np.diff(speeds).min() > 0 and
                                np.diff(speeds).max() < 0.15),
           'speeds {!r}', speeds[:5])
    for t in ts:
        close(t[1][:, 0], speeds, 'speeds of ' + t[0], rtol=1e-12)
    w = oracle(par, speeds)
    tol = slack(par, speeds, w)
    shown = [(a[1][:, 1], b[1][:, 1]) for a, b in
             zip(groups['Re'], groups['Im'])]
    equal([q[0] for q in groups['Re']], [q[0] for q in groups['Im']],
          'names of the modes')
    for k in range(len(speeds)):
        left = [(z.real, abs(z.imag)) for z in w[k]]
        for re, im in shown:
            d = [max(abs(re[k] - q[0]), abs(im[k] - q[1])) for q in left]
            j = int(np.argmin(d))
            expect(d[j] <= tol[k], 'eigenvalue {!r} with {!r} is drawn at '
                   '{} m/s, they are {!r}', re[k], im[k], speeds[k], w[k])
            left.pop(j)
    return check_regions(fig, speeds, w, tol, 'stability' in options)


def check_regions(fig, speeds, w, tol, asked):
    """The shaded ranges are the stable ones; returns their number."""
    rects = [(q['x0'], q['x1']) for q in fig['layout'].get('shapes', [])]
    notes = [q['text'] for q in fig['layout'].get('annotations', [])]
    if not asked:
        expect(not rects and not notes, 'stability is shown: {!r} {!r}',
               rects, notes)
        return 0
    top = w.real.max(axis=1)
    sure = np.abs(top) > tol
    stable = top < 0
    inside = np.zeros(len(speeds), bool)
    for x0, x1 in rects:
        expect(x1 > x0, 'region {!r}', (x0, x1))
        inside |= (speeds >= x0 - 1e-12) & (speeds <= x1 + 1e-12)
    for k in range(len(speeds)):
        lone = ((k == 0 or not stable[k - 1]) and
                (k == len(speeds) - 1 or not stable[k + 1]))
        expect(inside[k] == stable[k] or not sure[k] or (
            stable[k] and lone), '{} m/s is {}shown as stable, largest real '
            'part {!r}; regions {!r}', speeds[k], '' if inside[k] else
            'not ', top[k], rects)
    expect(any('No stab' in q for q in notes) == (not rects), 'regions {!r} '
           'with notes {!r}', rects, notes)
    return len(rects)


# -- sessions -------------------------------------------------------------

def edits():
    pos = gen.fl(0.5, 1.5)
    return st.one_of(
        st.tuples(st.just('edit'), st.sampled_from(
            ['mB', 'mH', 'mF', 'mR', 'IBxx', 'IByy', 'IBzz', 'IHxx', 'IHyy',
             'IHzz', 'IRxx', 'IRyy', 'IFxx', 'IFyy', 'rR', 'rF', 'w', 'xB',
             'zB', 'xH', 'zH', 'g']), pos),
        st.tuples(st.just('set'), st.sampled_from(
            ['mB', 'mF', 'mR', 'IFyy', 'IRyy', 'g']), st.integers(1, 12)),
        st.tuples(st.just('set'), st.just('lam'), st.one_of(
            st.integers(-10, 40), gen.fl(-10.0, 40.0))),
        st.tuples(st.just('set'), st.just('c'), gen.fl(-0.1, 0.2)),
        st.tuples(st.just('ixz'), st.sampled_from(['IBxz', 'IHxz']),
                  gen.fl(-0.8, 0.8)))


def actions():
    marks = st.integers(-9, 9).map(lambda q: 5*q)
    near_ = st.integers(0, 3).map(lambda q: 5*q)
    choice = st.one_of(st.just(['centers', 'ellipse', 'stability']), st.lists(
        st.sampled_from(['centers', 'ellipse', 'stability']), unique=True))
    some = st.lists(st.one_of(
        st.tuples(st.just('bike'), st.sampled_from(webapp.OPTIONS)),
        edits(), edits(),
        st.tuples(st.just('options'), choice),
        st.tuples(st.just('slider'), st.tuples(
            st.one_of(near_, near_, marks), st.one_of(near_, near_, marks))
            .map(lambda q: sorted(q))),
        st.tuples(st.just('reset')), st.tuples(st.just('level'))), min_size=0, max_size=7)
    return st.tuples(st.one_of(st.just([]), choice.map(
        lambda q: [('options', q)])), some).map(lambda q: q[0] + q[1])


@st.composite
def sessions_(draw):
    return {'order': draw(st.booleans()),
            'actions': [list(a) for a in draw(actions())]}


@R.prop(sessions_, quick=300, thorough=4000, shards=8,
        rule='a cell was edited or another bicycle chosen')
def sessions(case, ctx):
    with figs.Closing():
        session(case, ctx)
        check_windows(False)


def session(case, ctx):
    b = Browser(case['order'])
    name = b.props['bike-dropdown.value']
    par = dict(FILES[name])
    stable = 0
    did = set()
    for a in itertools.chain([['load']], case['actions']):
        what = a[0]
        did.add(what)
        if what == 'bike':
            if a[1] != name:
                name = a[1]
                par = dict(FILES[name])
                b.props['bike-dropdown.value'] = name
                b.change(['bike-dropdown.value'])
        elif what == 'reset':
            par = dict(FILES[name])
            b.props['reset-button.n_clicks'] += 1
            b.change(['reset-button.n_clicks'])
        elif what == 'options':
            b.props['geometry-checklist.value'] = a[1]
            b.change(['geometry-checklist.value'])
        elif what == 'slider':
            b.props['range-slider.value'] = a[1]
            b.change(['range-slider.value'])
        elif what == 'level':
            # frame and fork meet the steer axis in one point
            par = dict(par, lam=0.0, rF=par['rR'])
            b.edit(b.tables()['lam'][1], 0)
            b.edit(b.tables()['rF'][1], par['rR'])
        elif what in ('edit', 'set', 'ixz'):
            k, v = a[1], a[2]
            if what == 'edit':
                v = par[k]*v
            elif what == 'ixz':
                v = v*0.9*math.sqrt(par[k[:2] + 'xx']*par[k[:2] + 'zz'])
            else:
                new = math.radians(v) if k == 'lam' else v
            if what != 'set':
                new = v
            trial = dict(par, **{k: new})
            if any(trial['I%sxz' % q]**2 > 0.9*trial['I%sxx' % q] *
                   trial['I%szz' % q] for q in 'BH'):
                continue
            par = trial
            b.edit(b.tables()[k][1], v)
        # the figures hold what their places on the page are for
        options = b.props['geometry-checklist.value']
        slider = b.props['range-slider.value']
        check_tables(b, par)
        check_geometry(decode(b.props['geometry-plot.figure']), par, options)
        stable += check_eigen(decode(b.props['eigen-plot.figure']), par,
                              options, slider)
    ctx.label(*did)
    if stable:
        ctx.label('stable range')
    ctx.nontrivial(bool(did & {'edit', 'set', 'ixz', 'bike'}))


def check_windows(asked):
    expect(len(figs.shown) == asked, '{} windows opened, asked for {}',
           len(figs.shown), asked)


# -- the eigenvalue plot on its own ---------------------------------------

@st.composite
def plotly_cases(draw):
    p = draw(gen.meijaard())
    p.pop('v')
    n = draw(st.integers(1, 30))
    v0 = draw(gen.fl(-10.0, 10.0))
    dv = draw(gen.fl(0.01, 1.5))
    speeds = [v0 + dv*k for k in range(n)]
    if draw(st.booleans()):
        speeds = draw(st.permutations(speeds))
    return {'p': p, 'speeds': list(speeds), 'fig': draw(st.booleans()),
            'largest': draw(st.booleans()), 'region': draw(st.booleans()),
            'show': draw(st.booleans())}


@R.prop(plotly_cases, quick=120, thorough=2000, shards=8,
        rule='more than one speed')
def eigenvalue_plot(case, ctx):
    import plotly.graph_objects as go
    api.write_bike(ctx.tmp, 'Abike', benchmark=case['p'])
    bike = bp.Bicycle('Abike', pathToData=ctx.tmp)
    plot = getattr(bike, '_plot_eigenvalues_vs_speed_plotly', None)
    if plot is None:
        raise Skip
    own = go.Figure() if case['fig'] else None
    given = np.array(case['speeds'])
    with figs.Closing():
        fig = plot(given, fig=own, show=case['show'],
                   largest=case['largest'], stability_region=case['region'])
        check_windows(case['show'])
    expect(own is None or fig is own, 'not drawn in the given figure')
    expect(given.tolist() == case['speeds'], 'speeds of the caller changed')
    speeds = np.sort(given)
    fig = decode(json.loads(fig.to_json()))
    if case['largest']:
        t, = traces(fig)
        w = oracle(case['p'], speeds)
        close(t[1][:, 0], speeds, 'speeds', rtol=1e-12)
        d = np.abs(t[1][:, 1] - w.real.max(axis=1))
        expect((d <= slack(case['p'], speeds, w)).all(), 'largest real part '
               'is off by {!r}', d)
        check_regions(fig, speeds, w, slack(case['p'], speeds, w),
                      case['region'])
    else:
        check_eigen(fig, case['p'], ['stability']*case['region'],
                    [speeds[0], speeds[-1]], dense=False)
    ctx.nontrivial(len(speeds) > 1)


# -- the drawing on its own ----------------------------------------------

@R.prop(lambda: st.fixed_dictionaries({
    'bike': C23.bicycles(), 'flags': st.tuples(*[st.booleans()]*3),
    'defaults': st.booleans(), 'show': st.booleans()}), quick=120, thorough=2000, shards=8,
        rule='ellipses or pendulum axes are drawn')
def geometry_plot(case, ctx):
    bike, par, mp = C23.build(case, ctx)
    plot = getattr(bike, '_plot_bicycle_geometry_plotly', None)
    pos = C23.places(par)
    if plot is None or min(np.linalg.eigvalsh(plane_inertia(par, b))[0]
                           for b in pos) <= 0:
        raise Skip
    pend, coms, ells = [True]*3 if case['defaults'] else case['flags']
    kw = {} if case['defaults'] else {
        'pendulum': pend, 'centerOfMass': coms, 'inertiaEllipse': ells}
    with figs.Closing():
        fig = decode(json.loads(plot(show=case['show'], **kw).to_json()))
        check_windows(case['show'])
    pend = pend and mp is not None
    check_geometry(fig, par, ['pendulum']*pend + ['centers']*coms +
                   ['ellipse']*ells)
    axes = [t[1] for t in traces(fig) if t[0] == 'Pendulum']
    want = []
    if pend:
        lines = {}
        measure.evaluate(mp, lines)
        for n in lines:
            for line in lines[n]:
                want.append(C23.pendulum_axis(line, pos[n]))
    expect(len(axes) == len(want), '{} pendulum axes, expected {}', len(axes),
           len(want))
    for w in want:
        expect(any(near(q, w, 1e-5) or near(q[::-1], w, 1e-5) for q in axes),
               'pendulum axis {!r} is not drawn: {!r}', w, axes)
    ctx.label(case['bike']['how'])
    ctx.nontrivial(ells or pend)


# -- the menu ------------------------------------------------------------

@R.prop(lambda: st.sampled_from(webapp.OPTIONS), quick=40, thorough=40,
        shards=1, rule='every choice of the menu')
def choices(case, ctx):
    b = Browser(False)
    opts = {o['value']: o['label'] for o in
            b.ids['bike-dropdown']['props']['options']}
    expect(case in opts and opts[case].startswith(case) and (
        len(opts[case]) == len(case) or opts[case][len(case)] in ' ('),
        'label {!r} of {}', opts.get(case), case)
    b.props['bike-dropdown.value'] = case
    b.change(['bike-dropdown.value'])
    check_tables(b, FILES[case])
    shown = b.tables()
    for k, u in UNITS.items():
        t, n, c = shown[k][1]
        expect(u in b.props[t + '.data'][n]['label'], 'unit of {}', k)
    ctx.nontrivial()
