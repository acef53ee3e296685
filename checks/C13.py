"""C13: bicycle geometry."""
import math

import numpy as np
from hypothesis import strategies as st
from uncertainties import ufloat

from vlib import api, gen
from vlib.core import Registry, close, equal, expect, numeric
from bicycleparameters import geometry as geo
from bicycleparameters import bicycle as bk

R = Registry('C13')


@st.composite
def bikes(draw):
    p = {'w': draw(gen.fl(0.5, 2.0)), 'c': draw(gen.fl(-0.2, 0.3)),
         'lam': draw(gen.nz(-0.2, 1.2, 1e-6)),
         'rR': draw(gen.fl(0.15, 0.6)), 'rF': draw(gen.fl(0.15, 0.6))}
    m = {'nR': draw(st.integers(1, 12)), 'nF': draw(st.integers(1, 12))}
    for k in ('d1', 'd2', 'd3', 'd4'):
        m[k] = draw(gen.fl(0.005, 0.06))
    for k in ('h2', 'h3', 'h5'):
        m[k] = draw(gen.fl(0.0, 0.4))
    m['side'] = draw(st.booleans())
    m['numbers'] = draw(st.sampled_from(['float', 'ufloat']))
    m['force'] = draw(st.booleans())
    return [p, m]


def wrap(d, kind):
    return {k: ufloat(v, 1e-4 + 1e-3*abs(v)) if kind == 'ufloat' and
            k not in ('nR', 'nF') else v for k, v in d.items()}


def nominal(x):
    return getattr(x, 'nominal_value', x)


def offsets(p):
    """Offsets of rear (a) and front (b) wheel centres from the steer axis
    and the distance between their feet along it (c)."""
    s, k = math.sin(p['lam']), math.cos(p['lam'])
    # unit vector forward-and-up normal to the steer axis, and one down it
    n, t = np.array([k, s]), np.array([s, -k])
    contact = np.array([p['w'] + p['c'], 0.0])
    rear, front = np.array([0.0, p['rR']]), np.array([p['w'], p['rF']])
    return (n @ (contact - rear), n @ (front - contact),
            t @ (front - rear))


@R.prop(bikes, quick=900, thorough=16000,
        rule='steer axis not vertical, wheels of different radius')
def recovered_from_measurements(case, ctx):
    """Measuring a known bicycle gives the bicycle's geometry."""
    p, m = case
    a, b, c = offsets(p)
    mp = {'nR': m['nR'], 'nF': m['nF'],
          'dR': 2*math.pi*p['rR']*m['nR'], 'dF': 2*math.pi*p['rF']*m['nF']}
    if m['side'] or c <= 0.05 or a + b <= 0.05:
        mp.update(w=p['w'], gamma=90 - math.degrees(p['lam']), f=b)
    else:
        mp.update({k: m[k] for k in ('d1', 'd2', 'd3', 'd4', 'h2', 'h3',
                                     'h5')})
        mp['h1'] = a - m['h2'] + m['h3'] - .5*m['d1'] + .5*m['d2']
        mp['h4'] = b + .5*m['d3'] + m['h5'] - .5*m['d4']
        mp['d'] = math.hypot(c, a - b) - .5*(m['d2'] + m['d3'])
    if m['force']:
        mp['xcl'], mp['zcl'] = 0.3, -0.7
    given = wrap(mp, m['numbers'])
    keep = dict(given)
    par = {'mB': 1.0}
    out = geo.calculate_benchmark_geometry(given, par)
    for k, v in p.items():
        close(float(nominal(out[k])), v, k, rtol=1e-9, atol=1e-9)
    equal(out['mB'], 1.0, 'parameter that was there before')
    equal('xcl' in out, m['force'], 'lateral force point present')
    if m['force']:
        equal([nominal(out[k]) for k in ('xcl', 'zcl')], [0.3, -0.7],
              'lateral force point')
    equal(set(given), set(keep), 'measurements afterwards')
    expect(all(given[k] is keep[k] for k in keep), 'measurements changed')
    ctx.label('direct' if 'w' in mp else 'offsets', m['numbers'])
    ctx.nontrivial(p['lam'] != 0 and p['rR'] != p['rF'])


@R.prop(bikes, quick=600, thorough=12000,
        rule='wheels of different radius')
def offsets_and_tilt(case, ctx):
    p, m = case
    a, b, c = offsets(p)
    kind = m['numbers']
    if a + b > 0.05:
        given = wrap({'rF': p['rF'], 'rR': p['rR'], 'a': a, 'b': b, 'c': c},
                     kind)
        lam = bk.lambda_from_abc(*[given[k] for k in ('rF', 'rR', 'a', 'b',
                                                      'c')])
        close(float(nominal(lam)), p['lam'], 'steer axis tilt', atol=1e-9)
    if c > 0.05 and a + b > 0.05:
        # perpendicular distances from the raw lengths
        h = [0.0, m['h2'], m['h3'], 0.0, m['h5']]
        d = [m['d1'], m['d2'], m['d3'], m['d4'], 0.0]
        h[0] = a - m['h2'] + m['h3'] - .5*m['d1'] + .5*m['d2']
        h[3] = b + .5*m['d3'] + m['h5'] - .5*m['d4']
        d[4] = math.hypot(c, a - b) - .5*(m['d2'] + m['d3'])
        got = geo.calculate_abc_geometry(tuple(h), tuple(d))
        close(got, [a, b, c], 'offsets', atol=1e-10)
    tr, me = bk.trail(p['rF'], p['lam'], b)
    close(tr, p['c'], 'trail', atol=1e-11)
    # mechanical trail: distance from the contact point to the steer axis
    close(me, p['c']*math.cos(p['lam']), 'mechanical trail', atol=1e-11)
    close(abs(me), geo.distance_to_steer_axis(
        p['w'], p['c'], p['lam'], np.array([p['w'], 0.0, 0.0])),
        'distance of the front contact to the steer axis', atol=1e-11)
    for name, pt, q in (('rear', [0.0, 0.0, -p['rR']], a),
                        ('front', [p['w'], 0.0, -p['rF']], b)):
        close(geo.distance_to_steer_axis(p['w'], p['c'], p['lam'],
                                         np.array(pt)), abs(q),
              'distance of the %s wheel centre to the steer axis' % name,
              atol=1e-11)
    # corners of the geometry drawing
    x, z = geo.fundamental_geometry_plot_data(dict(p))
    s, k = math.sin(p['lam']), math.cos(p['lam'])
    close(x, [0.0, a*k, p['w'] - b*k, p['w']], 'corners, x', atol=1e-11)
    close(z, [-p['rR'], -p['rR'] - a*s, -p['rF'] + b*s, -p['rF']],
          'corners, z', atol=1e-11)
    ctx.nontrivial(p['rR'] != p['rF'])


@R.prop(lambda: st.tuples(gen.nz(-1.5, 1.5, 1e-9), gen.fl(-0.5, 0.5),
                          gen.fl(-1.2, 1.2), gen.fl(0.0, 0.3),
                          gen.fl(0.005, 0.05), gen.fl(0.005, 0.05),
                          st.sampled_from(['float', 'ufloat', 'int'])),
        quick=500, thorough=9000, rule='tilted steer axis')
def handlebar_reference(case, ctx):
    lam, l1, l2, h6, d5, d6, kind = case
    if kind == 'int':
        lam = int(lam)
    given = wrap({'lam': lam, 'l1': l1, 'l2': l2}, kind)
    u1, u2 = (float(nominal(u)) for u in geo.fwheel_to_handlebar_ref(
        given['lam'], given['l1'], given['l2']))
    # back to components along and normal to the steer axis; u1 backward,
    # u2 upward
    s, k = math.sin(lam), math.cos(lam)
    close(-u1*k + u2*s, l1, 'component normal to the steer axis',
          atol=1e-12)
    close(u1*s + u2*k, l2, 'component along the steer axis', atol=1e-12)
    # measured on the table
    l2 = abs(l2) + 0.1
    h7 = l1 + h6 - d5/2 + d6/2
    got = geo.calculate_l1_l2(h6, h7, d5, d6, math.hypot(l1, l2) + d5/2 +
                              d6/2)
    close([float(x) for x in got], [l1, l2], 'measured reference point',
          atol=1e-11)
    ctx.nontrivial(lam != 0)


vec3 = st.lists(gen.fl(-3, 3), min_size=3, max_size=3)


@R.prop(lambda: st.tuples(vec3, vec3, vec3, gen.fl(-3, 3), gen.fl(-3, 3)),
        quick=600, thorough=12000, rule='the point is not on the line')
def lines_and_points(case, ctx):
    p, a, d, m, b = map(np.array, case)
    if np.linalg.norm(d) < 1e-2:
        d = np.array([0.3, -0.4, 1.0])
    got = geo.point_to_line_distance(p, np.array([a, a + d]).T)
    u = d/np.linalg.norm(d)
    r = p - a
    foot = r - (r @ u)*u
    close(float(got), np.linalg.norm(foot), 'distance', atol=1e-11 +
          1e-12*np.abs(r).max()/np.linalg.norm(d)*10)
    # the projection on a line in the plane
    x, z = geo.project_point_on_line((float(m), float(b)),
                                     (float(p[0]), float(p[1])))
    close(z, m*x + b, 'the projected point is on the line', atol=1e-11)
    close((x - p[0]) + m*(z - p[1]), 0.0,
          'the way to the projected point is normal to the line',
          atol=1e-10)
    ctx.nontrivial(np.linalg.norm(foot) > 1e-6)


@R.prop(lambda: st.tuples(vec3, vec3, gen.fl(0.1, 10.0), gen.fl(-10, -0.1),
                          st.sampled_from(['column', 'flat']),
                          st.integers(0, 2), st.booleans()),
        quick=700, thorough=12000, rule='vectors that are not parallel')
def vectors(case, ctx):
    a, b, f, g, how, axis, npint = case
    a, b = np.array(a), np.array(b)
    if np.linalg.norm(a) < 1e-3:
        a = np.array([1.0, -2.0, 0.5])
    if np.linalg.norm(b) < 1e-3:
        b = np.array([0.2, 1.0, 3.0])
    w = (lambda v: v.reshape(3, 1)) if how == 'column' else (lambda v: v)
    got = geo.vec_angle(w(a), w(b))
    cr = np.linalg.norm(np.cross(a, b))
    want = math.atan2(cr, a @ b)
    close(float(got), want, 'angle', atol=1e-7)
    close(float(geo.vec_angle(w(b), w(a))), want, 'angle, exchanged',
          atol=1e-7)
    close(float(geo.vec_angle(w(f*a), w(b))), want, 'angle, scaled',
          atol=1e-7)
    close(float(geo.vec_angle(w(a), w(f*a))), 0.0, 'angle of parallel '
          'vectors', atol=1e-7)
    close(float(geo.vec_angle(w(a), w(g*a))), math.pi, 'angle of opposite '
          'vectors', atol=1e-7)
    keep = a.copy()
    # projection
    got = numeric(geo.vec_project(w(a), b), 'projection', (3, 1)).ravel()
    nb = b/np.linalg.norm(b)
    close(got, a - (a @ nb)*nb, 'projection into the plane normal to b',
          atol=1e-12*np.linalg.norm(a))
    again = numeric(geo.vec_project(got.reshape(3, 1), f*b)).ravel()
    close(again, got, 'projection of the projection',
          atol=1e-12*np.linalg.norm(a))
    k = np.int64(axis) if npint else axis
    got = numeric(geo.vec_project(w(a), k), 'projection', (3, 1)).ravel()
    want = a.copy()
    want[axis] = 0.0
    close(got, want, 'projection along a coordinate', atol=1e-13)
    equal(a.tolist(), keep.tolist(), 'vector passed in')
    ctx.label(how)
    ctx.nontrivial(cr > 1e-3*np.linalg.norm(a)*np.linalg.norm(b))


@R.prop(lambda: st.tuples(gen.fl(0.1, 2.0), gen.fl(0.1, 2.0),
                          gen.fl(0.001, 0.999)),
        quick=500, thorough=9000, rule='links of different lengths')
def two_links(case, ctx):
    L1, L2, f = case
    D = abs(L1 - L2) + f*(2*min(L1, L2))
    t1, t2 = geo.calc_two_link_angles(L1, L2, D)
    expect(t1 >= 0 and t2 >= 0, 'angles {} {} are not positive', t1, t2)
    # first link up from the base, second link turned down by theta2
    close([L1*math.cos(t1) + L2*math.cos(t1 - t2),
           L1*math.sin(t1) + L2*math.sin(t1 - t2)], [D, 0.0],
          'end of the second link', atol=1e-7)
    ctx.label('folds back' if L2*math.cos(t1 - t2) < 0 else 'ahead')
    ctx.nontrivial(L1 != L2)
