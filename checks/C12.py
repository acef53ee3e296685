"""C12: locating mass centres from lines and groups of bodies."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import api, gen
from vlib.core import Registry, close, equal, expect, numeric
from bicycleparameters import com

R = Registry('C12')


@st.composite
def groups(draw):
    n = draw(st.integers(1, 7))
    c = [[draw(gen.fl(-3, 3)) for _ in range(n)] for _ in range(3)]
    m = [draw(gen.fl(0.05, 90.0)) for _ in range(n)]
    return [c, m, draw(st.sampled_from(['array', 'list', 'tuple', 'int'])),
            draw(st.integers(1, n)), draw(st.permutations(range(n)))]


@R.prop(groups, quick=800, thorough=15000, rule='at least two bodies, not '
        'all of the same mass')
def total_mass_centre(case, ctx):
    c, m, how, k, perm = case
    if how == 'int':
        m = [max(1, int(x)) for x in m]
        c = [[int(10*x) for x in r] for r in c]
    C, M = c, m
    if how == 'array':
        C, M = np.array(c), np.array(m)
    elif how == 'tuple':
        C, M = tuple(tuple(r) for r in c), tuple(m)
    mT, cT = com.total_com(C, M)
    tot = math.fsum(m)
    want = [math.fsum(a*b for a, b in zip(r, m))/tot for r in c]
    big = max(abs(x) for r in c for x in r)
    close(mT, tot, 'total mass', rtol=1e-13)
    close(cT, want, 'mass centre', rtol=1e-12, atol=1e-13*big)
    # the order of the bodies does not matter
    mP, cP = com.total_com([[r[i] for i in perm] for r in c],
                           [m[i] for i in perm])
    close(mP, tot, 'total mass in another order', rtol=1e-13)
    close(cP, want, 'mass centre in another order', rtol=1e-12,
          atol=1e-13*big)
    # grouping first and then combining gives the same
    m1, c1 = com.total_com([r[:k] for r in c], m[:k])
    if k < len(m):
        m2, c2 = com.total_com([r[k:] for r in c], m[k:])
        mg, cg = com.total_com(np.array([c1, c2]).T, [m1, m2])
        close(mg, tot, 'total mass of two groups', rtol=1e-12)
        close(cg, want, 'mass centre of two groups', rtol=1e-11,
              atol=1e-12*big)
    # inside the box around the bodies
    cT = numeric(cT)
    expect(np.all(cT >= np.min(c, axis=1) - 1e-12*(1 + big)) and
           np.all(cT <= np.max(c, axis=1) + 1e-12*(1 + big)),
           'mass centre {} outside of the bodies', cT)
    ctx.label(how, 'n=%d' % len(m))
    ctx.nontrivial(len(set(m)) > 1)


@st.composite
def pencils(draw):
    n = draw(st.integers(2, 7))
    ang = [draw(gen.fl(-0.08, 0.08)) + (i + 0.5)/n*math.pi - math.pi/2
           for i in range(n)]
    # sometimes nearly the same orientation every time
    near = draw(st.sampled_from([1.0, 1.0, 0.1, 0.01]))
    mid = draw(gen.fl(-1.0, 1.0)) if near < 1.0 else 0.0
    ang = [mid + near*a for a in ang]
    return {'at': [draw(gen.fl(-1.5, 1.5)), draw(gen.fl(-1.5, 1.5))],
            'angles': draw(st.permutations(ang)),
            'off': [draw(gen.fl(-0.03, 0.03)) for _ in range(n)],
            'how': draw(st.sampled_from(['list', 'array', 'tuple']))}


@R.prop(pencils, quick=600, thorough=10000,
        rule='at least three lines that do not meet in one point')
def crossing_lines(case, ctx):
    x, z = case['at']
    ang = [a for a in case['angles'] if abs(math.cos(a)) > 0.02]
    # (lines straight up have no slope)
    if len(ang) < 2:
        ang = [-0.5, 0.7]
    sl = [math.tan(a) for a in ang]
    ic = [z - s*x for s in sl]
    big = 1 + max(abs(s) for s in sl)
    # nearly parallel lines magnify round off
    big /= min(1.0, min(abs(s - t) for s, t in
                        itertools.combinations(sl, 2)))
    wrap = {'list': list, 'array': np.array, 'tuple': tuple}[case['how']]
    got = com.center_of_mass(wrap(sl), wrap(ic))
    equal(len(got), 2, 'number of coordinates')
    close([float(g) for g in got], [x, z], 'point common to all lines',
          atol=1e-9*big*big)
    # lines that miss: the average of the crossings of every two lines
    ic = [b + o for b, o in zip(ic, case['off'])]
    pts = []
    for i, j in itertools.combinations(range(len(sl)), 2):
        px = (ic[j] - ic[i])/(sl[i] - sl[j])
        pts.append([px, sl[i]*px + ic[i]])
    got = com.center_of_mass(wrap(sl), wrap(ic))
    close([float(g) for g in got], np.mean(pts, axis=0),
          'average of the crossings', atol=1e-8*big*big)
    ctx.label('lines=%d' % len(sl))
    ctx.nontrivial(len(sl) > 2 and len(set(case['off'])) > 1)


def hang(par, part, cm, alpha, l1, l2):
    """Where the pendulum axis has to be, physically: the distance from the
    axis to the reference point, measured horizontally when hanging, for a
    part whose mass centre is at cm=(x, z)."""
    lam = par['lam']
    if part == 'B':
        ref = (0.0, -par['rR'])
    else:
        ref = (par['w'], -par['rF'])
        if part == 'G':
            # along (l2) the steer axis upwards, and forward normal to it
            # (l1): x = -l2 sin + l1 cos, up = l2 cos + l1 sin
            ref = (ref[0] - l2*math.sin(lam) + l1*math.cos(lam),
                   ref[1] - l2*math.cos(lam) - l1*math.sin(lam))
    beta = lam - math.radians(alpha)
    # the vertical while hanging, in bicycle coordinates, is the direction
    # of slope -tan(beta): (cos b, -sin b); horizontal is its normal
    n = (math.sin(beta), math.cos(beta))
    # the line through the mass centre: signed offset of the reference point
    a = n[0]*(ref[0] - cm[0]) + n[1]*(ref[1] - cm[1])
    return a, beta


@st.composite
def hung(draw):
    p = draw(gen.meijaard())
    split = draw(st.booleans())
    k = {}
    for part in ('B', 'G', 'S') if split else ('B', 'H'):
        n = draw(st.sampled_from([2, 3, 4, 4, 11]))
        # far apart, sometimes nearly the same orientation every time
        near = draw(st.sampled_from([1.0, 1.0, 0.1, 0.01]))
        off = 8.0 if n < 5 else 3.0
        k[part] = [near*(draw(gen.fl(-off, off)) + i*170.0/n - 75.0)
                   for i in range(n)]
    h = {'h6': draw(gen.fl(0.02, 0.3)), 'd5': draw(gen.fl(0.005, 0.03)),
         'd6': draw(gen.fl(0.01, 0.05)), 'l': draw(gen.fl(0.7, 1.2))}
    h['h7'] = h['h6'] + draw(gen.fl(-0.3, 0.3))
    cm = {b: [draw(gen.fl(-0.5, 1.5)), draw(gen.fl(-1.5, -0.1))]
          for b in 'BHGS'}
    return [p, split, k, h, cm, draw(st.booleans())]


@R.prop(hung, quick=500, thorough=9000, rule='steer axis not vertical and '
        'fork split')
def lines_of_hung_parts(case, ctx):
    """Lines found from hanging a part in several orientations all pass
    through the mass centre of the part."""
    par, split, betas, h, cm, reverse = case
    par = dict(par)
    mp = dict(h)
    l1 = l2 = 0.0
    if split:
        r5, r6 = h['d5']/2, h['d6']/2
        l1 = (h['h7'] - r6) - (h['h6'] - r5)
        l2 = math.sqrt((h['l'] - r5 - r6)**2 - l1**2)
        close(com.calculate_l1_l2(h['h6'], h['h7'], h['d5'], h['d6'],
                                  h['l']), [l1, l2], 'l1, l2', atol=1e-12)
    want = {}
    for part, bs in betas.items():
        want[part] = []
        for i, deg in enumerate(bs):
            alpha = math.degrees(par['lam']) - deg
            a, beta = hang(par, part, cm[part], alpha, l1, l2)
            mp['alpha%s%d' % (part, i + 1)] = alpha
            mp['a%s%d' % (part, i + 1)] = a
            want[part].append(beta)
            got = com.com_line(alpha, a, dict(par), part, l1, l2)
            m, b, be = (float(x) for x in got)
            big = 1 + abs(m)
            close(m, -math.tan(beta), 'slope', atol=1e-11*big*big)
            close(m*cm[part][0] + b, cm[part][1],
                  'height of the line at the mass centre of ' + part,
                  atol=1e-11*big*big)
    keep = dict(mp)
    order = dict(reversed(list(mp.items()))) if reverse else dict(mp)
    sl, ic, be = com.part_com_lines(order, dict(par), split)
    parts = {'B', 'G', 'S'} if split else {'B', 'H'}
    for d in (sl, ic, be):
        equal(set(d), parts, 'parts')
    for part in parts:
        close(be[part], want[part], 'orientations of ' + part, atol=1e-11)
        big = 1 + max(abs(math.tan(b)) for b in want[part])
        for m, b in zip(sl[part], ic[part]):
            close(m*cm[part][0] + b, cm[part][1],
                  'line of part %s at its mass centre' % part,
                  atol=1e-10*big**2)
        if len(want[part]) > 1:
            big /= min(1.0, min(abs(math.tan(s) - math.tan(t)) for s, t in
                                itertools.combinations(want[part], 2)))
            x, z = com.center_of_mass(sl[part], ic[part])
            close([float(x), float(z)], cm[part], 'mass centre of ' + part,
                  atol=1e-8*big**2)
    equal(mp, keep, 'measurements afterwards')
    ctx.label('split' if split else 'whole')
    ctx.nontrivial(split and par['lam'] != 0)


@st.composite
def arrays(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['int', 'float', 'range']))
        if kind == 'range':
            out.append(list(range(draw(st.integers(1, 4)))))
        elif kind == 'int':
            out.append(draw(st.lists(st.integers(-9, 9), min_size=1,
                                     max_size=4)))
        else:
            out.append(draw(st.lists(gen.fl(-5, 5), min_size=1,
                                     max_size=4)))
    return out


@R.prop(arrays, quick=500, thorough=8000, rule='at least two lists')
def cartesian_products(case, ctx):
    got = com.cartesian([np.array(a) for a in case])
    close(got, [list(t) for t in itertools.product(*case)], 'product',
          rtol=0)
    got = com.cartesian(tuple(case))
    close(got, [list(t) for t in itertools.product(*case)],
          'product of lists', rtol=0)
    ctx.nontrivial(len(case) > 1)
