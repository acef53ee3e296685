"""C11: inertia algebra."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import api, gen
from vlib.core import Registry, close, equal, expect, numeric
from bicycleparameters import inertia as it

R = Registry('C11')


@st.composite
def particles(draw, planar=False, nmin=1):
    n = draw(st.integers(nmin, 6))
    out = []
    for _ in range(n):
        out.append([draw(gen.fl(0.1, 20.0)), draw(gen.fl(-2, 2)),
                    0.0 if planar else draw(gen.fl(-2, 2)),
                    draw(gen.fl(-2, 2))])
    return out


def about(parts, o):
    """Inertia tensor of point masses about the point o."""
    I = np.zeros((3, 3))
    for m, x, y, z in parts:
        r = np.array([x, y, z]) - o
        I += m*(r @ r*np.eye(3) - np.outer(r, r))
    return I


def centre(parts):
    a = np.array(parts)
    return (a[:, 0] @ a[:, 1:])/a[:, 0].sum()


def size(parts, *pts):
    a = np.array(parts)
    L = np.abs(a[:, 1:]).max() + max([np.abs(p).max() for p in pts] + [0])
    return a[:, 0].sum()*L*L


@R.prop(lambda: st.tuples(particles(), st.lists(
    gen.fl(-3, 3), min_size=3, max_size=3), st.sampled_from(api.HOW)),
        quick=600, thorough=10000, rule='at least two masses and a point '
        'that is not the mass centre')
def parallel_axes(case, ctx):
    parts, pt, how = case
    c = centre(parts)
    d = np.array(pt) - c
    Ic = about(parts, c)
    keep = Ic.copy()
    m = sum(x[0] for x in parts)
    got = it.parallel_axis(Ic, m, api.as_given(d.tolist(), how))
    close(got, about(parts, np.array(pt)), 'inertia about another point',
          atol=1e-12*size(parts, np.array(pt)))
    equal(Ic.tolist(), keep.tolist(), 'tensor passed in')
    # the opposite offset gives the same
    close(it.parallel_axis(Ic, m, -d), numeric(got), 'opposite offset',
          atol=1e-13*size(parts, np.array(pt)))
    ctx.nontrivial(len(parts) > 1 and np.abs(d).max() > 1e-3)


@R.prop(lambda: st.tuples(particles(nmin=2), particles(nmin=2),
                          st.one_of(st.just(0.0), gen.fl(-0.1, 0.1))),
        quick=400, thorough=8000, rule='the rider sits off the plane')
def rider_on_frame(case, ctx):
    """Frame and rider as one body: the inertia of all their particles."""
    a, b, off = case
    # the frame is symmetric about the plane, so is the rider about his own
    a = [[x[0]/2, x[1], s*x[2], x[3]] for x in a for s in (1, -1)]
    b = [[x[0]/2, x[1], off + s*x[2], x[3]] for x in b for s in (1, -1)]

    def par(parts):
        c = centre(parts)
        I = about(parts, c)
        return {'mB': sum(x[0] for x in parts), 'xB': float(c[0]),
                'yB': float(c[1]), 'zB': float(c[2]), 'IBxx': I[0, 0],
                'IByy': I[1, 1], 'IBzz': I[2, 2], 'IBxz': I[0, 2]}
    bike, rider = par(a), par(b)
    bike.update({'w': 1.1, 'mH': 2.0, 'IHxx': 0.3})
    del bike['yB']
    if off == 0.0:
        del rider['yB']
    kept, krid = dict(bike), dict(rider)
    out = it.combine_bike_rider(bike, rider)
    c = centre(a + b)
    I = about(a + b, c)
    s = size(a + b)
    close(out['mB'], sum(x[0] for x in a + b), 'mass')
    close([out['xB'], out['zB']], [c[0], c[2]], 'mass centre', atol=1e-12)
    for k, (i, j) in {'xx': (0, 0), 'yy': (1, 1), 'zz': (2, 2),
                      'xz': (0, 2)}.items():
        close(out['IB' + k], I[i, j], 'IB' + k, atol=1e-11*s)
    equal({k: out[k] for k in ('w', 'mH', 'IHxx')},
          {k: kept[k] for k in ('w', 'mH', 'IHxx')}, 'other parameters')
    equal(rider, krid, 'rider passed in')
    ctx.nontrivial(off != 0.0)


@R.prop(lambda: st.tuples(particles(planar=True, nmin=2),
                          st.lists(gen.fl(-3.2, 3.2), min_size=3,
                                   max_size=7),
                          st.lists(gen.fl(-0.2, 0.2), min_size=7,
                                   max_size=7)),
        quick=500, thorough=9000, rule='more than three orientations')
def planar_inertia_from_axes(case, ctx):
    """Moments about in-plane axes at known orientations determine the
    planar tensor; with more than three it is the least squares solution."""
    parts, beta, noise = case
    # the axes must be distinct directions
    beta = [b + 0.25*i for i, b in enumerate(sorted(beta))]
    X = np.array([[math.cos(b)**2, -2*math.sin(b)*math.cos(b),
                   math.sin(b)**2] for b in beta])
    if np.linalg.cond(X) > 1e4:
        beta = [0.9*i/len(beta)*math.pi for i in range(len(beta))]
        X = np.array([[math.cos(b)**2, -2*math.sin(b)*math.cos(b),
                       math.sin(b)**2] for b in beta])
    I = about(parts, centre(parts))
    jay = []
    for b in beta:
        u = np.array([math.cos(b), 0.0, -math.sin(b)])
        jay.append(u @ I @ u)
    jay = np.array(jay)
    want = [I[0, 0], I[0, 2], I[2, 2]]
    got = it.inertia_components(jay, np.array(beta))
    s = size(parts)
    tol = 1e-11*s*np.linalg.cond(X)**2
    close(got, want, 'recovered tensor', atol=tol)
    noisy = jay + np.array(noise[:len(beta)])*s*0.1
    e = np.asarray(it.inertia_components(noisy, np.array(beta)), float)
    # normal equations of least squares
    close(X.T @ (X @ e), X.T @ noisy, 'least squares residual',
          atol=1e-9*s*np.linalg.cond(X)**2)
    ctx.label('n=%d' % len(beta))
    ctx.nontrivial(len(beta) > 3)


@R.prop(lambda: st.tuples(particles(), gen.fl(-7.0, 7.0), gen.fl(-4.0, 4.0)),
        quick=500, thorough=9000, rule='non-zero angle, at least two masses')
def rotation(case, ctx):
    """Tensor expressed in a frame turned about y."""
    parts, q, q2 = case
    a = np.array(parts)
    I = about(parts, np.zeros(3))
    keep = I.copy()
    # components in a frame rotated by q about +y
    c, s = math.cos(q), math.sin(q)
    rot = np.array([[m, c*x - s*z, y, s*x + c*z] for m, x, y, z in a])
    tol = 1e-12*size(parts)
    got = it.rotate_inertia_tensor(I, q)
    close(got, about(rot.tolist(), np.zeros(3)), 'turned tensor', atol=tol)
    equal(I.tolist(), keep.tolist(), 'tensor passed in')
    back = it.rotate_inertia_tensor(numeric(got), -q)
    close(back, I, 'turned forth and back', atol=tol)
    both = it.rotate_inertia_tensor(numeric(got), q2)
    close(both, numeric(it.rotate_inertia_tensor(I, q + q2)),
          'two turns and one turn', atol=4*tol)
    ctx.nontrivial(q != 0 and len(parts) > 1)


@st.composite
def tensors(draw):
    style = draw(st.sampled_from(['any', 'planar', 'axial', 'round',
                                  'diagonal']))
    if style in ('any', 'planar'):
        p = draw(particles(planar=False, nmin=3))
        I = about(p, centre(p))
        if style == 'planar':
            I[0, 1] = I[1, 0] = I[1, 2] = I[2, 1] = 0.0
        return [style, I.tolist()]
    d = [draw(gen.fl(0.1, 5.0)) for _ in range(3)]
    if style == 'axial':
        d[1] = d[0]
        q = np.array([draw(gen.fl(-1, 1)), draw(gen.fl(-1, 1)),
                      draw(gen.fl(0.1, 1))])
        q = q/np.linalg.norm(q)
        I = d[0]*np.eye(3) + (d[2] - d[0])*np.outer(q, q)
        I = (I + I.T)/2
        return [style, I.tolist()]
    if style == 'round':
        d = [d[0]]*3
    return [style, np.diag(d).tolist()]


@R.prop(tensors, quick=700, thorough=12000,
        rule='every tensor that is not diagonal')
def principal_frame(case, ctx):
    style, I = case
    I = np.array(I)
    keep = I.copy()
    Ip, C = it.principal_axes(I)
    Ip = numeric(Ip, 'principal moments', (3,))
    C = numeric(C, 'rotation matrix', (3, 3))
    s = np.abs(I).max()
    expect(np.all(np.diff(Ip) >= -1e-12*s), 'principal moments are not in '
           'ascending order: {}', Ip)
    close(np.sort(Ip), np.linalg.eigvalsh(I), 'principal moments',
          atol=1e-10*s)
    close(C @ C.T, np.eye(3), 'the axes are not orthonormal: C C^T',
          rtol=0, atol=1e-8)
    close(C @ I @ C.T, np.diag(Ip), 'tensor in the principal frame',
          rtol=0, atol=1e-8*s)
    close(np.linalg.det(C), 1.0, 'determinant of the rotation matrix',
          atol=1e-8)
    equal(I.tolist(), keep.tolist(), 'tensor passed in')
    ctx.label(style)
    ctx.nontrivial(np.count_nonzero(I) > 3)


@R.prop(lambda: st.tuples(gen.fl(0.1, 50.0), gen.fl(0.5, 20.0),
                          gen.fl(0.01, 3.0), gen.fl(0.001, 20.0),
                          gen.fl(0.2, 6.0)), quick=500, thorough=9000,
        rule='every pendulum')
def pendulums(case, ctx):
    """Forward and inverse pendulum relations."""
    m, g, l, I, T = case
    # compound: period of a body of central inertia I hung at distance l
    Tc = 2*math.pi*math.sqrt((I + m*l*l)/(m*g*l))
    close(it.compound_pendulum_inertia(m, g, l, Tc), I,
          'inertia from a compound pendulum', atol=1e-12*(I + m*l*l))
    # torsional: k = I w^2
    k = it.torsional_pendulum_stiffness(I, T)
    close(k, I*(2*math.pi/T)**2, 'torsional stiffness', rtol=1e-12)
    close(it.tor_inertia(k, T), I, 'inertia from the same pendulum',
          rtol=1e-12)
    close(it.tor_inertia(l, T), l*(T/(2*math.pi))**2, 'torsional inertia',
          rtol=1e-12)
    ctx.nontrivial()


@R.prop(lambda: st.tuples(gen.fl(0.01, 3.0), gen.fl(0.1, 20.0),
                          gen.fl(0.005, 0.5), gen.fl(0.0, 1.0),
                          gen.fl(0.05, 0.95)), quick=400, thorough=8000,
        rule='hollow tube')
def tubes(case, ctx):
    l, m, ro, f, cut = case
    ri = ro*f*0.999
    Ix, Iy, Iz = it.tube_inertia(l, m, ro, ri)
    # tube by integration over radius with exact Gauss quadrature
    t, w = np.polynomial.legendre.leggauss(4)
    r = (ro + ri)/2 + (ro - ri)/2*t
    dens = m/(math.pi*(ro**2 - ri**2)*l)
    ax = sum(w*(ro - ri)/2*2*math.pi*r**3)*dens*l
    tr = ax/2 + m*l*l/12
    close(Ix, ax, 'axial moment', rtol=1e-9)
    close(Iy, tr, 'transverse moment', rtol=1e-9)
    close(Iz, tr, 'transverse moment', rtol=1e-9)
    # two pieces of the tube make the tube
    l1, l2 = l*cut, l*(1 - cut)
    A = it.tube_inertia(l1, m*cut, ro, ri)
    B = it.tube_inertia(l2, m*(1 - cut), ro, ri)
    close(A[0] + B[0], Ix, 'axial moment of the pieces', rtol=1e-10)
    y = A[1] + m*cut*(l2/2)**2 + B[1] + m*(1 - cut)*(l1/2)**2
    close(y, Iy, 'transverse moment of the pieces', rtol=1e-10)
    solid = it.tube_inertia(l, m, ro, 0.0)
    close(solid[0], m*ro*ro/2, 'axial moment of a rod', rtol=1e-12)
    ctx.nontrivial(ri > 0)


@R.prop(lambda: st.tuples(gen.meijaard(), st.sampled_from('BHGSRFD'),
                          st.booleans()), quick=300, thorough=5000,
        rule='a frame or fork part')
def tensor_of_part(case, ctx):
    from uncertainties import ufloat, unumpy
    p, part, unc = case
    q = dict(p)
    for k in 'GS':
        for c in ('xx', 'yy', 'zz', 'xz'):
            q['I' + k + c] = p['IH' + c]*0.7 + 0.01
    q['IDxx'], q['IDyy'] = 0.02, 0.05
    want = np.zeros((3, 3))
    f = 'RFD'.find(part) >= 0
    for c, (i, j) in {'xx': (0, 0), 'yy': (1, 1), 'zz': (2, 2),
                      'xz': (0, 2)}.items():
        want[i, j] = want[j, i] = (0.0 if f and c == 'xz' else
                                   q['I%sxx' % part] if f and c == 'zz'
                                   else q['I' + part + c])
    if unc:
        q = {k: ufloat(v, 0.01*abs(v) + 1e-6) for k, v in q.items()}
        q0 = q
    got = it.part_inertia_tensor(q, part)
    if unc:
        close(unumpy.nominal_values(got), want, 'tensor', rtol=1e-15)
        expect(got[0, 0] is q0['I%sxx' % part], 'uncertainty was dropped')
    else:
        close(got, want, 'tensor', rtol=1e-15)
    ctx.nontrivial(part in 'BHGS')
