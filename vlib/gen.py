"""Hypothesis strategies.  Every generated case is a JSON value."""
import math

from hypothesis import strategies as st


def raw(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False)


def fl(lo, hi):
    """Floats of [lo, hi]: mostly spread evenly, sometimes Hypothesis's own
    mixture of short, boundary and awkward values."""
    n = 1000
    even = st.integers(0, n).map(
        lambda i: float(min(hi, max(lo, round(lo + (hi - lo)*(i/n), 6)))))
    return st.integers(0, 3).flatmap(lambda k: raw(lo, hi) if k == 3
                                     else even)


def nz(lo, hi, tiny):
    """Float in [lo, hi] that is either exactly zero or not tiny."""
    return fl(lo, hi).map(lambda x: 0.0 if abs(x) < tiny else x)


@st.composite
def planar_inertia(draw, mass, kmin=0.0, kmax=0.8):
    """(Ixx, Iyy, Izz, Ixz) of a real body symmetric about the xz plane."""
    s = [mass*draw(fl(kmin, kmax))**2 for _ in range(3)]
    t = draw(fl(-1.5, 1.5))
    a, b = s[1] + s[2], s[0] + s[1]       # principal moments in the plane
    ct, sn = math.cos(t), math.sin(t)
    return (a*ct*ct + b*sn*sn, s[0] + s[2], a*sn*sn + b*ct*ct,
            (b - a)*ct*sn)


@st.composite
def wheel(draw, rmax=0.8):
    r = draw(fl(0.1, rmax))
    m = draw(fl(0.2, 15.0))
    sr = (r*draw(fl(0.3, 0.98)))**2/2.0   # per axis, in the wheel plane
    # (a wheel may be wider than it is high)
    sy = sr*draw(st.one_of(fl(0.0, 0.9), fl(0.0, 0.9), fl(0.9, 3.0)))
    return r, m, m*(sr + sy), 2.0*m*sr


speed = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 5.0]),
                  nz(-12.0, 12.0, 1e-9))
gravity = st.one_of(st.just(9.81), fl(0.5, 20.0), fl(0.5, 20.0),
                    st.sampled_from([0.0, 9.81, 1.62, -9.81]))


@st.composite
def layout(draw):
    return {'w': draw(fl(0.3, 2.5)), 'c': draw(nz(-0.3, 0.5, 1e-6)),
            'lam': draw(nz(-0.3, 1.3, 1e-6))}


@st.composite
def meijaard(draw, v=speed, g=gravity, ideal=False):
    p = draw(layout())
    p['g'] = draw(g)
    p['v'] = draw(v)
    for b in 'RF':
        p['r' + b], p['m' + b], p['I%sxx' % b], p['I%syy' % b] = draw(wheel())
    p['mB'] = draw(fl(1.0, 150.0))
    p['mH'] = draw(fl(0.3, 15.0))
    for b, (xl, xh), (zl, zh) in (('B', (-0.3, 1.5), (-2.0, -0.1)),
                                  ('H', (-0.1, 2.5), (-1.5, -0.1))):
        p['x' + b] = draw(fl(xl, xh))
        p['z' + b] = draw(fl(zl, zh))
        ine = draw(planar_inertia(p['m' + b], 0.02, 0.8))
        for k, val in zip(('xx', 'yy', 'zz', 'xz'), ine):
            p['I' + b + k] = val
    if ideal and draw(st.integers(0, 4)) == 4:
        idealise(draw, p)
    return p


def idealise(draw, p):
    """Point masses, wheels without mass or without spin (skates): the
    bicycles of thought experiments."""
    kind = st.sampled_from(['real', 'real', 'none', 'point'])
    q = dict(p)
    for b in 'RF':
        k = draw(kind)
        if k != 'real':
            q['I%sxx' % b] = q['I%syy' % b] = 0.0
        if k == 'none':
            q['m' + b] = 0.0
    for b in 'BH':
        if draw(kind) == 'point':
            for a in ('xx', 'yy', 'zz', 'xz'):
                q['I' + b + a] = 0.0
    from vlib import ref
    M = ref.matrices(ref.bodies_from_meijaard(q), q['w'], q['c'],
                     q['lam'])[0]
    d = abs(M[0, 0]*M[1, 1])
    if d > 0 and (d - M[0, 1]**2) > 1e-3*d and M[1, 1] > 1e-4*M[0, 0]:
        p.update(q)


GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
         'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']


@st.composite
def gains(draw):
    return {k: draw(nz(-200.0, 200.0, 1e-3)) for k in GAINS}


@st.composite
def meijaard_feedback(draw, ideal=False):
    p = draw(meijaard(ideal=ideal))
    p.update(draw(gains()))
    return p


def bicycle(**kw):
    """For the dynamics: idealised bicycles too."""
    return meijaard(ideal=True, **kw)


def bicycle_feedback():
    return meijaard_feedback(ideal=True)


@st.composite
def moore2019(draw):
    p = draw(layout())
    p['g'] = draw(gravity)
    p['v'] = draw(speed)
    for b in 'RF':
        r, m, ixx, iyy = draw(wheel())
        p['r' + b], p['m' + b] = r, m
        p['k%saa' % b] = math.sqrt(ixx/m)
        p['k%syy' % b] = math.sqrt(iyy/m)
    for b, (ml, mh), (xl, xh), (zl, zh) in (
            ('D', (1.0, 30.0), (-0.3, 1.5), (-1.2, -0.1)),
            ('H', (0.3, 15.0), (-0.1, 2.5), (-1.5, -0.1)),
            ('P', (5.0, 120.0), (-0.3, 1.5), (-2.5, -0.3))):
        p['m' + b] = draw(fl(ml, mh))
        p['x' + b] = draw(fl(xl, xh))
        p['z' + b] = draw(fl(zl, zh))
        s = [draw(fl(0.02, 0.6))**2 for _ in range(3)]
        p['k%saa' % b] = math.sqrt(s[1] + s[2])
        p['k%syy' % b] = math.sqrt(s[0] + s[2])
        p['k%sbb' % b] = math.sqrt(s[0] + s[1])
        p['alpha' + b] = draw(nz(-1.5, 1.5, 1e-6))
    p['lP'] = draw(fl(0.5, 2.5))
    p['wP'] = draw(fl(0.1, 1.0))
    return p


@st.composite
def riderlean(draw):
    """Leaning rider parameters, built from an ordinary layout."""
    lay = draw(layout())
    # (the solver for the steer axis tilt needs the front wheel centre to be
    # ahead of the rear one as seen along the steer axis)
    w, c, lam = lay['w'] + 0.5, lay['c'], min(lay['lam'], 1.0)
    rr, md, id11, id22 = draw(wheel(0.5))
    rf, mf, if11, if22 = draw(wheel(0.5))
    s, k = math.sin(lam), math.cos(lam)
    p = {'rr': rr, 'md': md, 'id11': id11, 'id22': id22, 'rf': rf, 'mf': mf,
         'if11': if11, 'if22': if22}
    p['d1'] = k*(c + w - rr*math.tan(lam))
    p['d3'] = -k*(c - rf*math.tan(lam))
    p['d2'] = (rr + p['d1']*s - rf + p['d3']*s)/k
    for b, ml, mh in (('c', 1.0, 100.0), ('e', 0.3, 15.0), ('g', 1.0, 80.0)):
        m = p['m' + b] = draw(fl(ml, mh))
        ine = draw(planar_inertia(m, 0.05, 0.6))
        p['i%s11' % b], p['i%s22' % b], p['i%s33' % b], p['i%s31' % b] = ine
    p['l1'], p['l2'] = draw(fl(-0.3, 1.2)), draw(fl(-1.0, 0.5))
    p['l3'], p['l4'] = draw(fl(-0.6, 0.6)), draw(fl(-0.9, 0.3))
    p['l5'], p['l6'] = draw(fl(-0.4, 1.2)), draw(fl(-0.9, 0.2))
    p['d4'] = draw(fl(-1.0, 0.3))
    p['c9'] = draw(nz(0.0, 50.0, 1e-3))
    p['k9'] = draw(nz(0.0, 400.0, 1e-3))
    p['g'] = draw(gravity)
    p['v'] = draw(speed)
    return p


def subset(items, min_size=0, max_size=None):
    return st.lists(st.sampled_from(list(items)), unique=True,
                    min_size=min_size, max_size=max_size)
