"""Forward model of the measuring procedure: from a known bicycle to the
numbers a person would write down in the workshop, and an independent
evaluation of the documented procedure for measurements that disagree."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen

GEO = ['h1', 'h2', 'h3', 'h4', 'h5', 'd1', 'd2', 'd3', 'd4', 'd']


@st.composite
def angles(draw, many):
    n = draw(st.integers(3, 6))
    if many and draw(st.integers(0, 5)) == 0:
        n = draw(st.integers(7, 12))
    j = 8.0 if n < 7 else 3.0
    a = [draw(gen.fl(-j, j)) + i*160.0/n - 65.0 for i in range(n)]
    # (any whole turns; the order is arbitrary)
    return [x + 360.0*draw(st.integers(-1, 1)) if draw(st.booleans()) else x
            for x in draw(st.permutations(a))]


@st.composite
def part(draw, mlo, mhi, xr, zr, many):
    m = draw(gen.fl(mlo, mhi))
    return {'m': m, 'x': draw(gen.fl(*xr)), 'z': draw(gen.fl(*zr)),
            'I': list(draw(gen.planar_inertia(m, 0.05, 0.6))),
            'hang': draw(angles(many))}


@st.composite
def bikes(draw, many=False):
    """JSON case: a bicycle made of parts, and how it is measured; many: in
    any number of orientations, else at most six."""
    b = {'w': draw(gen.fl(0.6, 1.6)), 'c': draw(gen.fl(-0.1, 0.2)),
         'lam': draw(gen.nz(-0.1, 1.1, 1e-6)), 'g': draw(gen.fl(9.7, 9.9)),
         'R': list(draw(gen.wheel(0.5))), 'F': list(draw(gen.wheel(0.5))),
         'B': draw(part(1.0, 25.0, (0.15, 0.8), (-0.4, 0.1), many))}
    # (frame: relative to the rear axle; z is down)
    if draw(st.booleans()):
        b['S'] = draw(part(0.3, 5.0, (-0.4, 0.05), (-0.6, -0.06), many))
        b['G'] = draw(part(0.3, 5.0, (-0.2, 0.3), (0.05, 0.4), many))
        b.update(h6=draw(gen.fl(0.02, 0.3)), d5=draw(gen.fl(0.005, 0.03)),
                 d6=draw(gen.fl(0.01, 0.05)), l=draw(gen.fl(0.7, 1.2)),
                 l1=draw(gen.fl(-0.3, 0.3)))
    else:
        b['H'] = draw(part(0.3, 8.0, (-0.4, 0.05), (-0.6, -0.06), many))
    if draw(st.integers(0, 2)) == 0:
        b['D'] = [draw(gen.fl(0.5, 5.0)), draw(gen.fl(0.01, 0.1)),
                  draw(gen.fl(0.01, 0.2))]
    b['lR'], b['lF'] = draw(gen.fl(0.05, 0.3)), draw(gen.fl(0.05, 0.3))
    b['rod'] = [draw(gen.fl(0.5, 1.5)), draw(gen.fl(1.0, 8.0)),
                draw(gen.fl(0.01, 0.05)), draw(gen.fl(0.5, 3.0))]
    b['n'] = [draw(st.integers(1, 20)), draw(st.integers(1, 20))]
    b['small'] = [draw(gen.fl(0.005, 0.06)) for _ in range(4)] + \
        [draw(gen.fl(0.0, 0.4)) for _ in range(3)]
    b['direct'] = draw(st.integers(0, 3)) == 0
    if draw(st.integers(0, 3)) == 0:
        # where a lateral force is applied: passed on as it is
        b['cl'] = [draw(gen.fl(-1.0, 1.0)), draw(gen.fl(-1.5, 0.0))]
    return b


def forward(b):
    """Returns the measurements and the benchmark parameters they are of."""
    w, c, lam, g = b['w'], b['c'], b['lam'], b['g']
    rR, mR, IRxx, IRyy = b['R']
    rF, mF, IFxx, IFyy = b['F']
    s, k = math.sin(lam), math.cos(lam)
    par = dict(w=w, c=c, lam=lam, g=g, rR=rR, rF=rF, mR=mR, mF=mF,
               IRxx=IRxx, IRyy=IRyy, IFxx=IFxx, IFyy=IFyy)
    n, t = np.array([k, s]), np.array([s, -k])      # x forward, y up
    contact = np.array([w + c, 0.0])
    rear, front = np.array([0.0, rR]), np.array([w, rF])
    ao, bo = n @ (contact - rear), n @ (front - contact)
    co = t @ (front - rear)
    mp = {'g': g, 'nR': b['n'][0], 'nF': b['n'][1],
          'dR': 2*math.pi*rR*b['n'][0], 'dF': 2*math.pi*rF*b['n'][1],
          'mR': mR, 'mF': mF, 'lR': b['lR'], 'lF': b['lF']}
    sm = b['small']
    if b['direct'] or co <= 0.25 or ao + bo <= 0.1:
        mp.update(w=w, gamma=90 - math.degrees(lam), f=bo)
    else:
        d1, d2, d3, d4, h2, h3, h5 = sm
        mp.update(d1=d1, d2=d2, d3=d3, d4=d4, h2=h2, h3=h3, h5=h5,
                  h1=ao - h2 + h3 - .5*d1 + .5*d2,
                  h4=bo + .5*d3 + h5 - .5*d4,
                  d=math.hypot(co, ao - bo) - .5*(d2 + d3))
    if 'cl' in b:
        mp['xcl'], mp['zcl'] = par['xcl'], par['zcl'] = b['cl']
    # the calibration rod
    lP, mP, dP, TtP = b['rod']
    mp.update(lP=lP, mP=mP, dP=dP, TtP1=TtP)
    rod = mP/12.0*(3*(dP/2)**2 + lP**2)
    kt = rod*(2*math.pi/TtP)**2

    def comp(m, l, I):
        return 2*math.pi*math.sqrt((I + m*l*l)/(m*g*l))

    def tors(I):
        return 2*math.pi*math.sqrt(I/kt)
    mp['TcR1'], mp['TcF1'] = comp(mR, b['lR'], IRyy), comp(mF, b['lF'], IFyy)
    mp['TtR1'], mp['TtF1'] = tors(IRxx), tors(IFxx)
    if 'D' in b:
        mD, Ixx, Iyy = b['D']
        mp['mD'] = mD + mF
        mp['TcD1'] = comp(mD + mF, b['lF'], Iyy + IFyy)
        mp['TtD1'] = tors(Ixx + IFxx)
        par.update(mD=mD, IDxx=Ixx, IDyy=Iyy)
    refs = {'B': (0.0, -rR), 'S': (w, -rF), 'H': (w, -rF)}
    if 'S' in b:
        l1, d5, d6 = b['l1'], b['d5'], b['d6']
        mp.update(h6=b['h6'], d5=d5, d6=d6, l=b['l'],
                  h7=l1 + b['h6'] - d5/2 + d6/2)
        l2 = math.sqrt((b['l'] - d5/2 - d6/2)**2 - l1*l1)
        refs['G'] = (w + l1*k - l2*s, -rF - (l1*s + l2*k))
    for name in 'BGSH':
        if name not in b:
            continue
        q = b[name]
        ref = refs[name]
        m = mp['m' + name] = par['m' + name] = q['m']
        x = par['x' + name] = ref[0] + q['x']
        z = par['z' + name] = ref[1] + q['z']
        for ax, v in zip(('xx', 'yy', 'zz', 'xz'), q['I']):
            par['I' + name + ax] = v
        mp['Tc%s1' % name] = comp(m, math.hypot(q['x'], q['z']), q['I'][1])
        for i, deg in enumerate(q['hang']):
            be = math.radians(deg)
            mp['alpha%s%d' % (name, i + 1)] = math.degrees(lam) - deg
            nx, nz = math.sin(be), math.cos(be)
            mp['a%s%d' % (name, i + 1)] = nx*(ref[0] - x) + nz*(ref[1] - z)
            ux, uz = math.cos(be), -math.sin(be)
            I = ux*ux*q['I'][0] + 2*ux*uz*q['I'][3] + uz*uz*q['I'][2]
            mp['Tt%s%d' % (name, i + 1)] = tors(I)
    if 'S' in b:
        par.update(whole(par, ('S', 'G')))
    return ({k: v if isinstance(v, int) else float(v)
             for k, v in mp.items()},
            {k: float(v) for k, v in par.items()})


def whole(par, names):
    """Parts combined to the front frame H."""
    m = sum(par['m' + n] for n in names)
    x = sum(par['m' + n]*par['x' + n] for n in names)/m
    z = sum(par['m' + n]*par['z' + n] for n in names)/m
    out = {'mH': m, 'xH': x, 'zH': z, 'IHxx': 0., 'IHyy': 0., 'IHzz': 0.,
           'IHxz': 0.}
    for n in names:
        dx, dz, mm = par['x' + n] - x, par['z' + n] - z, par['m' + n]
        out['IHxx'] += par['I%sxx' % n] + mm*dz*dz
        out['IHyy'] += par['I%syy' % n] + mm*(dx*dx + dz*dz)
        out['IHzz'] += par['I%szz' % n] + mm*dx*dx
        out['IHxz'] += par['I%sxz' % n] - mm*dx*dz
    return out


def disturb(mp, noise):
    """Measurements that do not agree any more, in place."""
    for i, k in enumerate(sorted(mp)):
        e = noise[i % len(noise)]*(1 if (i // len(noise)) % 2 else -1)
        if k.startswith('alpha'):
            mp[k] += 1.5*e
        elif k[0] == 'a':
            mp[k] += 0.01*e
        elif k not in ('nR', 'nF'):
            mp[k] *= 1 + 0.004*e
    return mp


def evaluate(mp, axes=None):
    """The documented procedure, for measurements that need not agree:
    mass centres are the average of the pairwise crossings, tensors the least
    squares fit over the orientations; axes: receives, by part, the pendulum
    axes [unit normal, offset, moment of inertia, orientation] of the
    orientations."""
    par = {'g': mp['g'], 'mR': mp['mR'], 'mF': mp['mF']}
    rR = par['rR'] = mp['dR']/mp['nR']/2/math.pi
    rF = par['rF'] = mp['dF']/mp['nF']/2/math.pi
    if 'w' in mp:
        lam, w, bo = math.radians(90 - mp['gamma']), mp['w'], mp['f']
    else:
        ao = mp['h1'] + mp['h2'] - mp['h3'] + (mp['d1'] - mp['d2'])/2
        bo = mp['h4'] - mp['h5'] + (mp['d4'] - mp['d3'])/2
        e = mp['d'] + (mp['d2'] + mp['d3'])/2
        co = math.sqrt(e*e - (ao - bo)**2)
        # solve (a+b) sin - c cos = rF - rR by bisection, near equal radii
        f = lambda q: (ao + bo)*math.sin(q) - co*math.cos(q) - (rF - rR)
        mid = math.atan2(co, ao + bo)
        lo, hi = mid - math.pi/2, mid + math.pi/2
        for _ in range(200):
            q = (lo + hi)/2
            if f(q) > 0:
                hi = q
            else:
                lo = q
        lam = (lo + hi)/2
        w = (ao + bo)*math.cos(lam) + co*math.sin(lam)
    par.update(lam=lam, w=w,
               c=(rF*math.sin(lam) - bo)/math.cos(lam))
    if 'xcl' in mp and 'zcl' in mp:
        par['xcl'], par['zcl'] = mp['xcl'], mp['zcl']
    rod = mp['mP']/12.0*(3*(mp['dP']/2)**2 + mp['lP']**2)
    kt = rod*(2*math.pi/mp['TtP1'])**2

    def comp(m, l, T):
        return (T/2/math.pi)**2*m*mp['g']*l - m*l*l

    def tors(T):
        return kt*(T/2/math.pi)**2
    par['IRyy'] = comp(mp['mR'], mp['lR'], mp['TcR1'])
    par['IFyy'] = comp(mp['mF'], mp['lF'], mp['TcF1'])
    par['IRxx'], par['IFxx'] = tors(mp['TtR1']), tors(mp['TtF1'])
    if 'mD' in mp:
        par['mD'] = mp['mD'] - mp['mF']
        par['IDxx'] = tors(mp['TtD1']) - par['IFxx']
        par['IDyy'] = comp(mp['mD'], mp['lF'], mp['TcD1']) - par['IFyy']
    refs = {'B': (0.0, -rR), 'S': (w, -rF), 'H': (w, -rF)}
    if 'mS' in mp:
        l1 = mp['h7'] - mp['h6'] + (mp['d5'] - mp['d6'])/2
        l2 = math.sqrt((mp['l'] - (mp['d5'] + mp['d6'])/2)**2 - l1*l1)
        s, k = math.sin(lam), math.cos(lam)
        refs['G'] = (w + l1*k - l2*s, -rF - l1*s - l2*k)
    for name in 'BGSH':
        if 'm' + name not in mp:
            continue
        m = par['m' + name] = mp['m' + name]
        ref = refs[name]
        lines, X, J = [], [], []
        i = 1
        while 'alpha%s%d' % (name, i) in mp:
            be = lam - math.radians(mp['alpha%s%d' % (name, i)])
            nrm = np.array([math.sin(be), math.cos(be)])
            # points r on the line: nrm . (ref - r) = a
            lines.append((nrm, nrm @ np.array(ref) - mp['a%s%d' % (name, i)]))
            cb, sb = math.cos(be), math.sin(be)
            X.append([cb*cb, -2*sb*cb, sb*sb])
            J.append(tors(mp['Tt%s%d' % (name, i)]))
            if axes is not None:
                axes.setdefault(name, []).append(lines[-1] + (J[-1], be))
            i += 1
        pts = [np.linalg.solve(np.array([p[0], q[0]]),
                               np.array([p[1], q[1]]))
               for p, q in itertools.combinations(lines, 2)]
        x, z = np.mean(pts, axis=0)
        par['x' + name], par['z' + name] = float(x), float(z)
        e = np.linalg.lstsq(np.array(X), np.array(J), rcond=None)[0]
        for ax, v in zip(('xx', 'xz', 'zz'), e):
            par['I' + name + ax] = float(v)
        par['I%syy' % name] = comp(m, math.hypot(x - ref[0], z - ref[1]),
                                   mp['Tc%s1' % name])
    if 'mS' in mp:
        par.update(whole(par, ('S', 'G')))
    return par


def scale_of(par, key):
    """Natural size of a benchmark parameter, for tolerances."""
    if key[0] == 'I':
        p = key[1]
        m = par.get('m' + p, 1.0)
        return abs(par[key]) + m*(1 + abs(par.get('x' + p, 0.0)))**2
    return 1.0 + abs(par[key])
