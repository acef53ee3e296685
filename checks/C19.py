"""C19: a rider seated on a bicycle."""
import math
import os
import re
import warnings

import numpy as np
import yeadon
from hypothesis import strategies as st
from uncertainties import ufloat

from vlib import api, figs, gen
from vlib.core import Registry, Skip, close, equal, expect, numeric
from checks import C18
from bicycleparameters import rider as rd
from bicycleparameters.main import Bicycle

R = Registry('C19')
QUICK = 2
DATA = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data')
JOINTS = ['tilt', 'twist', 'PTsagittalFlexion', 'PTbending',
          'TCspinalTorsion', 'TCsagittalSpinalFlexion', 'CA1extension',
          'CA1adduction', 'CA1rotation', 'CB1extension', 'CB1abduction',
          'CB1rotation', 'A1A2extension', 'B1B2extension', 'PJ1extension',
          'PJ1adduction', 'PK1extension', 'PK1abduction', 'J1J2flexion',
          'K1K2flexion']
FOUND = ['PJ1extension', 'J1J2flexion', 'CA1extension', 'CA1adduction',
         'CA1rotation', 'A1A2extension', 'PK1extension', 'K1K2flexion',
         'CB1extension', 'CB1abduction', 'CB1rotation', 'B1B2extension']
# wheelbase, radii and seating of bicycles that fit these riders
FIT = {
    'Jason': [(1.0759, 0.3336, 0.3352, .54768, .2032, .535, 1.0795, .90805,
               .291, .423, 1.2671, 0.284),
              (1.121, 0.3409, 0.3435, .53, .24, .58, .9213, .893, .295, .46,
               1.19555, 0.175),
              (1.13, 0.35, 0.35, .54, .27, .53, 1.11, .93, .3, .48, 1.2165,
               0.170)],
    'Luke': [(1.0759, 0.3336, 0.3352, .54768, .1524, .535, 1.0795, .90805,
              .291, .423, 1.2671, 0.148)],
    'Child': [(0.6388, 0.15, 0.147, .238125, .0381, .42275, .67945, .6096,
               .1905, .2413, 1.23395, 0.148)]}
MASS = {'Jason': 83.5, 'Luke': 84.3, 'Child': 19.0}
NAMES = ['w', 'rR', 'rF', 'lst', 'lsp', 'whb', 'LhbR', 'LhbF', 'hbb', 'lcs',
         'lamst', 'somersault']


@st.composite
def seats(draw):
    who = draw(st.sampled_from(sorted(FIT)))
    base = draw(st.sampled_from(FIT[who]))
    scale = draw(gen.fl(0.85, 1.15))
    much = draw(st.sampled_from([0.0, 0.02, 0.08, 0.15]))
    q = {}
    for n, x in zip(NAMES, base):
        q[n] = x*(1 + much*draw(gen.fl(-1.0, 1.0)))
        if n not in ('lamst', 'somersault'):
            q[n] *= scale
    # (reaching further is easily too far)
    if draw(st.integers(0, 3)) == 0:
        q['somersault'] = draw(gen.fl(-0.25, 0.3))
    # angles in the file that are calculated anyway
    rest = draw(st.one_of(st.just({}), st.dictionaries(
        st.sampled_from(sorted(FOUND)), gen.fl(-0.2, 0.2), max_size=4)))
    return [who, scale, round(MASS[who]*draw(gen.fl(0.8, 1.2)), 1), q, rest]


def feasible(m, q):
    """Whether hands and feet reach with bent elbows and knees."""
    far = q['lcs']**2 - (q['rR'] - q['hbb'])**2
    L = q['lsp'] + q['lst']
    a, b = m['Lj3L'], m['Lj5L'] + m['Lj6L'] - m['Lj3L']
    half = q['whb']/2
    A2, B2 = q['LhbF']**2 - half**2, q['LhbR']**2 - half**2
    D = math.hypot(q['w'], q['rF'] - q['rR'])
    if far <= 0 or A2 <= 0 or B2 <= 0:
        return False
    along = (B2 - A2 + D*D)/(2*D)
    if B2 - along**2 <= 0.01*D*D:
        return False
    up = math.sqrt(B2 - along**2)
    u = (q['w']/D, (q['rF'] - q['rR'])/D)
    hand = (along*u[0] - up*u[1], q['rR'] + along*u[1] + up*u[0])
    hip = (math.sqrt(far) - L*math.cos(q['lamst']),
           q['hbb'] + L*math.sin(q['lamst']))
    sh = (hip[0] + m['Ls4L']*math.sin(q['somersault']),
          hip[1] + m['Ls4L']*math.cos(q['somersault']))
    r = math.sqrt((hand[0] - sh[0])**2 + (hand[1] - sh[1])**2 +
                  (half - m['Ls4w']/2)**2)
    au, af = m['La2L'], m['La4L'] + m['La5L'] - m['La2L']
    return (0.1 + abs(a - b)/(a + b) < L/(a + b) < 0.96 and
            0.1 + abs(au - af)/(au + af) < r/(au + af) < 0.96)


def files(root, case, rider='Anna', bicycle='Testbike'):
    who, scale, mass, q, rest = case
    d = os.path.join(root, 'riders', rider, 'RawData')
    os.makedirs(d)
    with open(os.path.join(DATA, who + 'YeadonMeas.txt')) as f:
        text = f.read()
    text = re.sub(r'(?m)^measurementconversionfactor\s*:\s*(\S+)',
                  lambda g: 'measurementconversionfactor: %r' % (
                      float(g.group(1))*scale), text)
    text = re.sub(r'(?m)^totalmass\s*:\s*\S+', 'totalmass: %r' % mass, text)
    meas = os.path.join(d, rider + 'YeadonMeas.txt')
    cfg = os.path.join(d, rider + bicycle + 'YeadonCFG.txt')
    with open(meas, 'w') as f:
        f.write(text)
    with open(cfg, 'w') as f:
        f.write('somersault: %r\n' % q['somersault'] + ''.join(
            '%s: %r\n' % (j, rest.get(j, 0.0)) for j in JOINTS))
    return d, meas, cfg


def human_of(meas, cfg):
    try:
        return yeadon.Human(meas, cfg)
    except Exception as e:
        # (yeadon compares rounded masses exactly)
        if 'scale mass' in str(e):
            raise Skip('yeadon')
        raise


def place(q):
    """The map from the human's to the bicycle's coordinates."""
    L = q['lsp'] + q['lst']
    far = math.sqrt(q['lcs']**2 - (q['rR'] - q['hbb'])**2)
    x0, z0 = far - L*math.cos(q['lamst']), -q['hbb'] - L*math.sin(q['lamst'])

    def f(v):
        v = np.ravel(v)
        return np.array([x0 - v[1], -v[0], z0 - v[2]])
    return f, np.array([far, -q['hbb']])


def dicts(q, kind):
    m = {k: q[k] for k in NAMES[3:-1]}
    b = {k: q[k] for k in NAMES[:3]}
    if kind == 'uncertain':
        m = {k: ufloat(v, 0.001) for k, v in m.items()}
        b = {k: ufloat(v, 0.001) if k != 'w' else v for k, v in b.items()}
    m['aB1'] = 0.3
    return b, m


def point(seg, d):
    return seg.pos + seg.rot_mat @ np.array([[0.0], [0.0], [-d]])


def check_seated(h, q, what):
    m = h.meas
    f, bb = place(q)
    shank = m['Lj5L'] + m['Lj6L'] - m['Lj3L']
    fore = m['La4L'] + m['La5L'] - m['La2L']
    hands = []
    for side, leg, arm in (('left', h.J2, h.A2), ('right', h.K2, h.B2)):
        foot, hand = f(point(leg, shank)), f(point(arm, fore))
        close(foot[[0, 2]], bb, '%s foot at the bottom bracket, %s' % (
            side, what), atol=2e-7)
        close(np.linalg.norm(hand - [0, 0, -q['rR']]), q['LhbR'],
              '%s hand from the rear axle, %s' % (side, what), atol=2e-7)
        close(np.linalg.norm(hand - [q['w'], 0, -q['rF']]), q['LhbF'],
              '%s hand from the front axle, %s' % (side, what), atol=2e-7)
        expect(hand[2] < -q['rR'], 'hands are below the axle')
        hands.append(hand)
    # the left of the human is the left of the bicycle (y to the right)
    close(hands[0][1], -q['whb']/2, 'left hand from the plane', atol=2e-7)
    close(hands[1][1], q['whb']/2, 'right hand from the plane', atol=2e-7)
    close(hands[0][[0, 2]], hands[1][[0, 2]], 'hands side by side', atol=1e-9)
    # the elbow hinges are level
    close(h.A1.rot_mat[2, 0], 0.0, 'slope of the elbow hinge', atol=1e-6)
    close(h.CFG['somersault'], q['somersault'], 'lean', rtol=1e-14)
    for j in ('tilt', 'twist', 'PTsagittalFlexion', 'PTbending',
              'TCspinalTorsion', 'TCsagittalSpinalFlexion', 'PJ1adduction',
              'PK1abduction'):
        equal(float(h.CFG[j]), 0.0, j)
    close(h.mass, q['mass'], 'mass of the human', atol=0.006)
    close(h.center_of_mass[0, 0], 0.0, 'mass centre of the human from the '
          'plane', atol=1e-9)


KINDS = st.sampled_from(['plain', 'uncertain'])


def prepare(case, ctx):
    who, scale, mass, q, _ = case
    d, meas, cfg = files(ctx.tmp, case)
    h = human_of(meas, cfg)
    if not feasible(h.meas, q):
        ctx.label('out of reach')
        return None
    q['mass'] = mass
    return d, meas, cfg


def guarded(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return fn()
        except Exception as e:
            if 'scale mass' in str(e):
                raise Skip('yeadon')
            raise


@R.prop(lambda: st.tuples(seats(), KINDS), quick=500, thorough=8000,
        shards=2, rule='within reach')
def hands_and_feet(case, ctx):
    case, kind = case
    p = prepare(case, ctx)
    if p is None:
        return
    q = case[3]
    b, m = dicts(q, kind)
    keep = dict(b), dict(m)
    h = guarded(lambda: rd.rider_on_bike(b, m, p[1], p[2], False))
    check_seated(h, q, kind)
    equal((list(b), list(m)), (list(keep[0]), list(keep[1])), 'names')
    expect(all(b[k] is keep[0][k] for k in b) and
           all(m[k] is keep[1][k] for k in m), 'measurements were changed')
    ctx.label(case[0], kind)
    ctx.nontrivial()


@R.prop(lambda: st.tuples(seats(), st.lists(gen.fl(0.96, 1.04), min_size=9,
                                            max_size=9), gen.fl(-0.1, 0.1)),
        quick=120, thorough=2000, rule='within reach of both bicycles')
def one_human_on_several_bicycles(case, ctx):
    first, factors, lean = case
    p = prepare(first, ctx)
    if p is None:
        return
    who, scale, mass, q, rest = first
    r = {k: v*f for (k, v), f in zip(sorted(q.items()), factors*2)}
    r.update(somersault=q['somersault'] + lean, mass=mass)
    cfg = os.path.join(p[0], 'AnnaOtherbikeYeadonCFG.txt')
    with open(cfg, 'w') as f:
        f.write('somersault: %r\n' % r['somersault'] + ''.join(
            '%s: 0.0\n' % j for j in JOINTS))
    if not feasible(human_of(p[1], cfg).meas, r):
        ctx.label('out of reach')
        return
    seated = []
    for a, c in ((q, p[2]), (r, cfg), (q, p[2])):
        b, m = dicts(a, 'plain')
        h = guarded(lambda: rd.rider_on_bike(b, m, p[1], c, False))
        seated.append((h, a))
        for i, (g, s) in enumerate(seated):
            check_seated(g, s, 'human %d of %d' % (i + 1, len(seated)))
    ctx.nontrivial()


def check_rider(par, h, q, what):
    f, _ = place(q)
    c = f(h.center_of_mass)
    I = np.asarray(h.inertia)
    want = {'mB': h.mass, 'xB': c[0], 'yB': c[1], 'zB': c[2],
            'IBxx': I[1, 1], 'IByy': I[0, 0], 'IBzz': I[2, 2],
            'IBxz': I[1, 2]}
    equal(sorted(par), sorted(want), 'parameters of the rider, ' + what)
    for k, v in want.items():
        close(numeric(par[k], k), v, k + ' of the rider, ' + what,
              rtol=1e-9, atol=1e-9)
    return want


@R.prop(lambda: st.tuples(seats(), gen.meijaard(), KINDS), quick=200,
        thorough=3000, shards=2, rule='within reach')
def inertia_of_the_rider(case, ctx):
    case, bike, kind = case
    p = prepare(case, ctx)
    if p is None:
        return
    q = case[3]
    b, m = dicts(q, kind)
    par = {k: v for k, v in bike.items() if k != 'v'}
    par.update(b)
    before = {k: getattr(v, 'nominal_value', v) for k, v in par.items()}
    keep = dict(m)
    rider, h, both = guarded(lambda: rd.configure_rider(
        os.path.join(ctx.tmp, 'riders', 'Anna'), 'Testbike', par, m, False))
    check_seated(h, q, kind)
    check_rider(rider, h, q, kind)
    want = C18.combined(before, rider)
    got = C18.nominal(both)
    for k, v in want.items():
        close(got[k], v, k + ' of both', rtol=0,
              atol=1e-10*(abs(v) + 100.0))
    expect(list(m) == list(keep) and all(m[k] is keep[k] for k in m),
           'measurements were changed')
    ctx.label(case[0], kind)
    ctx.nontrivial()


@R.prop(lambda: st.tuples(seats(), st.lists(gen.fl(-2.0, 2.0), min_size=6,
                                            max_size=6), KINDS), quick=500,
        thorough=6000, rule='uncertain measurements')
def coordinates(case, ctx):
    (_, _, _, q, _), v, kind = case
    if q['lcs'] <= abs(q['rR'] - q['hbb']):
        return
    b, m = dicts(q, kind)
    f, bb = place(q)
    v = np.array(v)
    a = v[:3].reshape(3, 1)
    many = v.reshape(2, 3).T
    keep = a.copy()
    got = numeric(rd.yeadon_vec_to_bicycle_vec(a, m, b), 'point', (3, 1))
    close(got[:, 0], f(a), 'point in bicycle coordinates', atol=1e-12)
    got = numeric(rd.yeadon_vec_to_bicycle_vec(many, m, b), 'points', (3, 2))
    for i in range(2):
        close(got[:, i], f(many[:, i]), 'one of several points', atol=1e-12)
    equal(a.tolist(), keep.tolist(), 'vector passed in')
    ctx.nontrivial(kind == 'uncertain')


def check_figure(b, q, par):
    """The stick figure in the drawing of the bicycle."""
    f, _ = place(q)
    with figs.Closing():
        ax = b.plot_bicycle_geometry(show=False).axes[0]
        pairs = []
        for s in figs.segments(ax):
            pairs += [s[k:k + 2] for k in range(len(s) - 1)]
        lo, hi = ax.get_ylim()
    h = b.human
    if h is None:
        expect(len(pairs) == 5, '{} segments without a human', len(pairs))
        return
    at = [f(v)[[0, 2]]*[1, -1] for v in (
        h.K2.end_pos, h.K2.pos, h.K1.pos, h.B1.pos, h.B2.pos, h.B2.end_pos,
        h.C.end_pos)]
    for i, j in ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (3, 6)):
        want = np.array([at[i], at[j]])
        expect(any(np.abs(g - want).max() < 1e-6 or
                   np.abs(g[::-1] - want).max() < 1e-6 for g in pairs),
               'the figure has no limb from {!r} to {!r}: {!r}', at[i],
               at[j], pairs)
    expect(len(pairs) == 11, '{} segments', len(pairs))
    expect(lo <= 0.0 and hi >= max(at[6][1], 2*q['rR'], 2*q['rF']) - 1e-9,
           'limits {!r} cut off the head at {!r}', (lo, hi), at[6])


@R.prop(lambda: st.tuples(seats(), gen.meijaard(), st.sampled_from(
    ['calculate', 'no file', 'file', 'recalculate'])), quick=120,
        thorough=1500, shards=2, rule='within reach')
def bicycle_with_rider(case, ctx):
    """Adding a rider, saving, and adding the same rider again later."""
    case, bike, how = case
    p = prepare(case, ctx)
    if p is None:
        return
    q = case[3]
    par = {k: v for k, v in bike.items() if k != 'v'}
    par.update({k: q[k] for k in ('w', 'rR', 'rF')})
    root = ctx.tmp
    d = api.write_bike(root, 'Testbike', benchmark=par,
                       measured={k: q[k] for k in NAMES[3:-1]})
    path = os.path.join(root, 'riders', 'Anna', 'Parameters')
    old = {'mB': 11.0, 'xB': 0.2, 'zB': -0.5, 'yB': 0.0, 'IBxx': 1.0,
           'IByy': 1.1, 'IBzz': 0.9, 'IBxz': 0.05}
    if how in ('file', 'recalculate'):
        C18.write(os.path.join(path, 'AnnaTestbikeBenchmark.txt'), old)
    b = Bicycle('Testbike', pathToData=root)
    guarded(lambda: b.add_rider('Anna', reCalc=how in ('calculate',
                                                       'recalculate')))
    expect(b.hasRider and b.riderName == 'Anna', 'no rider')
    rider = dict(b.riderPar['Benchmark'])
    if how == 'file':
        equal(rider, old, 'the rider of the file')
        expect(b.human is None, 'there is a human')
    else:
        check_seated(b.human, q, how)
        check_rider(rider, b.human, q, how)
    check_figure(b, q, par)
    want = C18.combined(par, rider)
    got = C18.nominal(b.parameters['Benchmark'])
    for k, v in want.items():
        close(got[k], v, k + ' of both', rtol=0, atol=1e-10*(abs(v) + 100.0))
    with C18.answering(['y']*4):
        b.save_parameters()
    again = Bicycle('Testbike', pathToData=root)
    equal(C18.nominal(again.parameters['Benchmark']), par,
          'bicycle loaded again')
    again.add_rider('Anna')
    close([C18.nominal(again.parameters['Benchmark'])[k] for k in want],
          [got[k] for k in want], 'bicycle with the rider on again',
          rtol=1e-12, atol=1e-12)
    expect(os.path.isdir(d), 'bicycle is gone')
    ctx.label(how)
    ctx.nontrivial()
