"""C07: the leaning rider model."""
import numpy as np
from hypothesis import strategies as st

from vlib import api, gen, ref
from vlib.core import Registry, close, equal, expect, numeric

R = Registry('C07')
Q = [3, 5, 7]                # roll, steer, lean
U = [8, 10, 11]              # their rates


def dynamics(A, B, p, who):
    """Roll, steer and lean rows against the first-principles reference."""
    bodies, w, c, lam, hinge = ref.bodies_from_riderlean(p)
    M, C1, K0, K2, _ = ref.matrices(bodies, w, c, lam, hinge)
    v, g = p['v'], p['g']
    A = numeric(A, 'A of ' + who, (12, 12))
    B = numeric(B, 'B of ' + who, (12, 3))
    cond = np.linalg.cond(M)
    k = 1e-9 + 1e-13*cond
    aM = np.abs(M)
    K = g*K0 + v*v*K2
    K[2, 2] += p['k9']
    C = v*C1
    C[2, 2] += p['c9']
    # magnitude of the summed terms
    L = max([abs(x) for _, xz, _, _, _ in bodies for x in xz] +
            [w, abs(c), abs(p['d1']), abs(p['d2']), abs(p['d3'])])
    mT = sum(b[0] for b in bodies)
    iT = sum(np.abs(b[2]).sum() for b in bodies)
    r = (1 + (1 + L)/w)**2
    sp = sum(b[4] for b in bodies)
    s = {'K': abs(g)*mT*L*r + v*v*(mT*L + sp)/w*r + p['k9'],
         'C': abs(v)*((mT*L*L + iT)/w + sp)*r + p['c9'],
         'M': (mT*L*L + iT)*r}
    close(M @ B[U], np.eye(3), 'M times B of ' + who, rtol=0,
          atol=k*(aM @ np.abs(B[U])) + 1e-10)
    close(M @ A[np.ix_(U, Q)], -K, 'stiffness of ' + who, rtol=0,
          atol=k*(aM @ np.abs(A[np.ix_(U, Q)])) + 1e-9*s['K'])
    close(M @ A[np.ix_(U, U)], -C, 'damping of ' + who, rtol=0,
          atol=k*(aM @ np.abs(A[np.ix_(U, U)])) + 1e-9*s['C'])
    # position, heading and wheel angles cannot matter
    rest = [i for i in range(12) if i not in Q + U]
    big = np.abs(A[np.ix_(U, Q + U)]).max() + 1
    close(A[np.ix_(U, [0, 1, 2, 4, 6])], np.zeros((3, 5)),
          'effect of ignorable coordinates, ' + who, atol=1e-9*big)
    close(A[np.ix_(U, [9])], np.zeros((3, 1)),
          'effect of the wheel rate, ' + who, atol=1e-9*big)
    return w, c, lam, rest


def kinematics(A, B, p, w, c, lam, who):
    """Rolling without slip, and rates of the angles."""
    A = np.asarray(A, float)
    B = np.asarray(B, float)
    want = np.zeros((12, 12))
    want[0, 9] = -p['rr']
    want[1, 2] = p['v']
    want[2, 5] = p['v']*np.cos(lam)/w
    want[2, 10] = c*np.cos(lam)/w
    want[3, 8] = want[4, 9] = want[5, 10] = want[7, 11] = 1.0
    want[6, 9] = p['rr']/p['rf']
    rows = [0, 1, 2, 3, 4, 5, 6, 7, 9]
    close(A[rows], want[rows], 'kinematic rows of ' + who, rtol=1e-8,
          atol=1e-9*(1 + abs(p['v'])/w + abs(c)/w))
    close(B[rows], np.zeros((9, 3)), 'kinematic rows of B of ' + who,
          atol=1e-12*(1 + np.abs(B).max()))


@R.prop(lambda: st.tuples(gen.riderlean(), gen.speed,
                          st.sampled_from(api.SHOW)), quick=260,
        thorough=4000, shards=4,
        rule='moving, tilted steer axis, rider with product of inertia')
def leaning_rider_mechanics(case, ctx):
    p, v, how = case
    m = api.leanmodel(p)
    A, B = m.form_state_space_matrices()
    kinematics(A, B, p, *dynamics(A, B, p, 'the model')[:3], 'the model')
    q = dict(p, v=v)
    A, B = m.form_state_space_matrices(v=api.as_scalar(v, how))
    kinematics(A, B, q, *dynamics(A, B, q, 'another speed')[:3],
               'another speed')
    A, B = m.form_state_space_matrices()
    dynamics(A, B, p, 'the model, asked again')
    ctx.label('v=0' if v == 0 else 'v<0' if v < 0 else 'v>0',
              'c9' if p['c9'] else 'c9=0', 'k9' if p['k9'] else 'k9=0')
    ctx.nontrivial(v != 0 and p['ig31'] != 0 and p['v'] != 0)


@R.prop(lambda: st.tuples(st.lists(gen.riderlean(), min_size=2, max_size=3),
                          st.sampled_from(['list', 'array'])), quick=100,
        thorough=1600, shards=2, rule='bicycles that differ in geometry')
def many_bicycles_at_once(case, ctx):
    """A sweep over whole bicycles, each with its own mechanics."""
    ps, how = case
    m = api.leanmodel(ps[0])
    keys = [k for k in ps[0] if any(p[k] != ps[0][k] for p in ps)]
    ctx.nontrivial('d1' in keys or 'rr' in keys)
    if not keys:
        return
    over = {k: [p[k] for p in ps] for k in keys}
    if how == 'array':
        over = {k: np.array(x) for k, x in over.items()}
    A, B = m.form_state_space_matrices(**over)
    A = numeric(A, 'A of a sweep', (len(ps), 12, 12))
    B = numeric(B, 'B of a sweep', (len(ps), 12, 3))
    for i, p in enumerate(ps):
        who = 'bicycle %d of a sweep' % i
        kinematics(A[i], B[i], p, *dynamics(A[i], B[i], p, who)[:3], who)


def rigid(p):
    """The bicycle with the rider fixed to the frame, Meijaard style."""
    bodies, w, c, lam, hinge = ref.bodies_from_riderlean(p)
    (mR, cR, iR, _, _), C, E, (mF, cF, iF, _, _), G = bodies
    m = C[0] + G[0]
    x = (C[0]*C[1][0] + G[0]*G[1][0])/m
    z = (C[0]*C[1][1] + G[0]*G[1][1])/m
    I = np.zeros((3, 3))
    for b in (C, G):
        d = np.array([b[1][0] - x, 0.0, b[1][1] - z])
        I += b[2] + b[0]*(d @ d*np.eye(3) - np.outer(d, d))
    return {'w': w, 'c': c, 'lam': lam, 'g': p['g'], 'v': p['v'],
            'rR': p['rr'], 'mR': mR, 'IRxx': p['id11'], 'IRyy': p['id22'],
            'rF': p['rf'], 'mF': mF, 'IFxx': p['if11'], 'IFyy': p['if22'],
            'mB': m, 'xB': x, 'zB': z, 'IBxx': I[0, 0], 'IByy': I[1, 1],
            'IBzz': I[2, 2], 'IBxz': I[0, 2], 'mH': E[0], 'xH': E[1][0],
            'zH': E[1][1], 'IHxx': E[2][0, 0], 'IHyy': E[2][1, 1],
            'IHzz': E[2][2, 2], 'IHxz': E[2][0, 2]}


@R.prop(gen.riderlean, quick=150, thorough=2500, shards=2,
        rule='moving and tilted steer axis')
def rigid_rider_is_plain_bicycle(p, ctx):
    """Held still relative to the frame, the leaning rider model has the
    equations of the ordinary bicycle with the combined body."""
    lean = api.leanmodel(p)
    A, B = lean.form_state_space_matrices()
    q = {k: float(x) for k, x in rigid(p).items()}
    plain = api.mmodel(q)
    M, C1, K0, K2 = [numeric(m) for m in
                     plain.form_reduced_canonical_matrices()]
    M3 = np.linalg.inv(numeric(B)[U])
    sc = ref.scale(q)
    k = 1e-9 + 1e-13*np.linalg.cond(M3)
    big = np.abs(M3).max()
    close(M3[:2, :2], M, 'mass matrix with the rider held', rtol=0,
          atol=k*big + 1e-9*sc['M'])
    A = numeric(A)
    v, g = p['v'], p['g']
    close(-(M3 @ A[np.ix_(U, Q)])[:2, :2], g*K0 + v*v*K2,
          'stiffness with the rider held', rtol=0,
          atol=1e-9*(abs(g)*sc['K0'] + v*v*sc['K2']) +
          k*(np.abs(M3) @ np.abs(A[np.ix_(U, Q)]))[:2, :2])
    close(-(M3 @ A[np.ix_(U, U)])[:2, :2], v*C1,
          'damping with the rider held', rtol=0,
          atol=1e-9*abs(v)*sc['C1'] +
          k*(np.abs(M3) @ np.abs(A[np.ix_(U, U)]))[:2, :2])
    ctx.nontrivial(v != 0 and q['lam'] != 0)


@R.prop(lambda: st.tuples(gen.riderlean(), gen.fl(-50.0, 300.0),
                          gen.fl(-30.0, 60.0)), quick=100, thorough=1500,
        rule='both changes are non-zero')
def stiffness_and_damping_of_the_waist(case, ctx):
    """Changing the lean stiffness or damping changes only the lean
    torque."""
    p, dk, dc = case
    m = api.leanmodel(p)
    A0, B0 = m.form_state_space_matrices()
    A1, B1 = m.form_state_space_matrices(k9=p['k9'] + dk, c9=p['c9'] + dc)
    close(B1, B0, 'B', rtol=1e-12)
    d = numeric(A1) - numeric(A0)
    b = numeric(B0)[:, 2]
    want = np.zeros((12, 12))
    want[:, 7] = -dk*b
    want[:, 11] = -dc*b
    close(d, want, 'change of A', rtol=1e-7,
          atol=1e-9*(1 + np.abs(A0).max() + np.abs(A1).max()))
    ctx.nontrivial(dk != 0 and dc != 0)


@R.prop(gen.riderlean, quick=80, thorough=1200,
        rule='every generated bicycle')
def described_consistently(p, ctx):
    """Names and units are given for every state and input the matrices
    have."""
    m = api.leanmodel(p)
    A, B = m.form_state_space_matrices()
    for what in ('state_vars', 'state_units', 'state_vars_latex'):
        equal(len(getattr(m, what)), np.shape(A)[0], 'number of ' + what)
    for what in ('input_vars', 'input_units', 'input_vars_latex'):
        equal(len(getattr(m, what)), np.shape(B)[1], 'number of ' + what)
    # each rate has the unit of its angle per second
    units = dict(zip(m.state_vars, m.state_units))
    for k in units:
        if k.startswith('u'):
            equal(units[k], units['q' + k[1:]] + '/s', 'unit of ' + k)
    expect(len(set(m.state_vars)) == 12, 'repeated state names')
    ctx.nontrivial()
