"""Independent reference model: the linearized bicycle derived from first
principles.

Nothing here uses the published closed-form coefficients.  The generalized
coordinates are z = (y, phi, psi, delta[, theta]): lateral position of the
rear contact, roll, yaw, steer and (optionally) rider lean.  The mass matrix
comes from the kinetic energy of each rigid body, the speed terms from the
gyroscopic moment of the spinning wheels and from the rolling constraints, and
the gravity terms from the moments of weight and ground reaction forces about
the roll, steer and lean axes.  The nonholonomic constraints are then used to
eliminate y and psi.

Axes: x forward, y right, z down; origin at the rear wheel contact.
"""
import numpy as np


def bodies_from_meijaard(p):
    """(mass, (x, z), 3x3 central inertia, group, spin inertia/radius)."""
    def tens(b, xz=0.0, zz=None):
        return np.array([[p['I%sxx' % b], 0., xz],
                         [0., p.get('I%syy' % b, 0.0), 0.],
                         [xz, 0., p['I%szz' % b] if zz is None else zz]])
    return [
        (p['mR'], (0., -p['rR']), tens('R', 0., p['IRxx']), 'rear',
         p['IRyy']/p['rR']),
        (p['mB'], (p['xB'], p['zB']), tens('B', p['IBxz']), 'rear', 0.),
        (p['mH'], (p['xH'], p['zH']), tens('H', p['IHxz']), 'front', 0.),
        (p['mF'], (p['w'], -p['rF']), tens('F', 0., p['IFxx']), 'front',
         p['IFyy']/p['rF']),
    ]


def matrices(bodies, w, c, lam, hinge=None):
    """Returns M, C1, K0, K2 in the minimal coordinates (phi, delta) or, with
    ``hinge`` = height coordinate z of the horizontal lean axis,
    (phi, delta, theta)."""
    n = 4 if hinge is None else 5
    sl, cl = np.sin(lam), np.cos(lam)
    axis = np.array([sl, 0.0, cl])          # steer axis, pointing down
    pivot = (w + c, 0.0)                    # where it meets the ground
    M4 = np.zeros((n, n))
    G = np.zeros((n, n))                    # G @ zdot: gyroscopic, per speed
    Kg = np.zeros((n, n))                   # generalized gravity force per g

    def lateral(x, z, group):
        r = np.zeros(n)
        r[0], r[1], r[2] = 1.0, -z, x
        if group == 'front':
            r[3] = cl*(x - pivot[0]) - sl*(z - pivot[1])
        if group == 'rider':
            r[4] = -(z - hinge)
        return r

    def rate(group):
        J = np.zeros((3, n))
        J[0, 1] = 1.0
        J[2, 2] = 1.0
        if group == 'front':
            J[:, 3] = axis
        if group == 'rider':
            J[0, 4] = 1.0
        return J

    mT = sum(b[0] for b in bodies)
    xT = sum(b[0]*b[1][0] for b in bodies)/mT
    N = mT*xT/w                             # front ground reaction per g

    for m, (x, z), inertia, group, spin in bodies:
        yi = lateral(x, z, group)
        J = rate(group)
        M4 += m*np.outer(yi, yi) + J.T @ inertia @ J
        # a wheel rolling forward spins about -y: angular momentum -spin*v*y
        # with y' = -b x + a z for small rotations a about x, b about z ...
        if spin:
            a, b = J[0], J[2]               # tilt and turn of the wheel axle
            # H = h*(y-axis of the wheel); h = -spin*v; the axle direction is
            # (-B, 1, A) so Hdot = h*(-Bdot, 0, Adot), and the moment the
            # wheel exerts on what holds it is -Hdot
            Hd = np.zeros((3, n))
            Hd[0] = -(-1.0)*b*spin
            Hd[2] = (-1.0)*a*spin
            G += J.T @ Hd                   # inertial force on the left side
        # weight: acts at the displaced mass centre
        Kg[1] += m*(yi - lateral(0., 0., 'rear'))
        if group == 'front':
            nprime = np.zeros(n)            # lateral tilt of the steer axis
            nprime[1], nprime[2] = -cl, sl
            d = np.array([x - pivot[0], z - pivot[1]])
            dy = yi - lateral(pivot[0], pivot[1], 'rear')
            # moment of (0, 0, m) about the axis through the pivot:
            # n . (d x F) = Fz*(n_x*d_y - n_y*d_x)
            Kg[3] += m*(axis[0]*dy - nprime*d[0])
        if group == 'rider':
            Kg[4] += -m*(z - hinge)*(np.eye(n)[1] + np.eye(n)[4])
    # ground reaction (0, 0, -N) at the front contact, a point that follows
    # the front frame
    q = lateral(w, 0.0, 'front')
    Kg[1] -= N*(q - lateral(0., 0., 'rear'))
    nprime = np.zeros(n)
    nprime[1], nprime[2] = -cl, sl
    dy = q - lateral(pivot[0], pivot[1], 'rear')
    Kg[3] -= N*(axis[0]*dy - nprime*(w - pivot[0]))

    # rolling: ydot = v*psi ; psidot = (v*delta + c*deltadot)*cos(lam)/w
    k = n - 2                               # phi, delta[, theta]
    mu = c*cl/w
    idx = [1, 3] + ([4] if n == 5 else [])
    T = np.zeros((n, k))                    # virtual displacements
    for j, i in enumerate(idx):
        T[i, j] = 1.0
    T[2, 1] = mu
    # psi = mu*delta + psi0 with psi0dot = v*cl/w*delta ; y'' = v*psidot
    # zddot = T qddot + v*S qdot + v^2*R q ; zdot = T qdot + v*U q + ...
    S = np.zeros((n, k))
    R = np.zeros((n, k))
    U = np.zeros((n, k))
    S[2, 1] = cl/w
    S[0, 1] = mu
    R[0, 1] = cl/w
    U[2, 1] = cl/w
    # gravity: psi alone (a rigid rotation about the vertical) does no work,
    # so only the part of Kg not multiplying y or psi matters
    M = T.T @ M4 @ T
    C1 = T.T @ (M4 @ S + G @ T)
    K2 = T.T @ (M4 @ R + G @ U)
    K0 = -(T.T @ Kg)[:, idx]
    return M, C1, K0, K2, (T.T @ Kg)[:, [0, 2]]


def meijaard(p):
    M, C1, K0, K2, _ = matrices(bodies_from_meijaard(p), p['w'], p['c'],
                                p['lam'])
    return M, C1, K0, K2


def scale(p):
    """Magnitude of the terms that are summed in M, C1, K0 and K2, used to
    size the rounding allowance."""
    L = max(abs(p['w']), abs(p['c']), abs(p['xB']), abs(p['zB']),
            abs(p['xH']), abs(p['zH']), p['rR'], p['rF'], 1e-3)
    m = p['mB'] + p['mH'] + p['mF'] + p['mR']
    i = sum(abs(p[k]) for k in p if k[0] == 'I')
    s = m*L**2 + i
    r = 1.0 + (1.0 + L)/p['w']
    return {'M': s*r**2, 'C1': (s/p['w'] + i/p['rR'] + i/p['rF'])*r**2,
            'K0': m*L*r**2,
            'K2': (m*L + i/p['rR'] + i/p['rF'])/p['w']*r**2}


def state_matrices(M, C1, K0, K2, v, g):
    n = len(M)
    A = np.zeros((2*n, 2*n))
    A[:n, n:] = np.eye(n)
    A[n:, :n] = -np.linalg.solve(M, g*K0 + v*v*K2)
    A[n:, n:] = -np.linalg.solve(M, v*C1)
    B = np.zeros((2*n, n))
    B[n:] = np.linalg.inv(M)
    return A, B


def steer_tilt(rf, rr, d1, d2, d3):
    """Steer axis tilt of the upright bicycle from the Moore2012 lengths:
    the height of the front wheel centre over the ground must be rf."""
    # rr + d1 sin(l) - d2 cos(l) + d3 sin(l) - rf = 0
    a, b, k = d1 + d3, d2, rf - rr
    h = np.hypot(a, b)
    return np.arctan2(b, a) + np.arcsin(k/h)


def bodies_from_riderlean(p):
    """Bodies, w, c, lam and hinge height for the leaning rider model."""
    lam = steer_tilt(p['rf'], p['rr'], p['d1'], p['d2'], p['d3'])
    s, c_ = np.sin(lam), np.cos(lam)
    w = (p['d1'] + p['d3'])*c_ + p['d2']*s
    c = (p['rf']*s - p['d3'])/c_
    Rm = np.array([[c_, 0., s], [0., 1., 0.], [-s, 0., c_]])

    def tens(b):
        return np.array([[p['i%s11' % b], 0., p['i%s31' % b]],
                         [0., p['i%s22' % b], 0.],
                         [p['i%s31' % b], 0., p['i%s33' % b]]])

    def wheel(b):
        return np.diag([p['i%s11' % b], p['i%s22' % b], p['i%s11' % b]])

    hinge = p['d4'] - p['rr']
    bodies = [
        (p['md'], (0., -p['rr']), wheel('d'), 'rear', p['id22']/p['rr']),
        (p['mc'], (p['l1']*c_ + p['l2']*s,
                   -p['rr'] - p['l1']*s + p['l2']*c_),
         Rm @ tens('c') @ Rm.T, 'rear', 0.),
        (p['me'], (w + p['l3']*c_ + p['l4']*s,
                   -p['rf'] - p['l3']*s + p['l4']*c_),
         Rm @ tens('e') @ Rm.T, 'front', 0.),
        (p['mf'], (w, -p['rf']), wheel('f'), 'front', p['if22']/p['rf']),
        (p['mg'], (p['l5'], hinge + p['l6']), tens('g'), 'rider', 0.),
    ]
    return bodies, w, c, lam, hinge
