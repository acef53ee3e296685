"""C22: drawings of parameter sets show the geometry and mass distribution."""
import numpy as np
from hypothesis import strategies as st

from vlib import api, figs, gen
from vlib.api import ps
from vlib.core import Registry, Skip, close, equal, expect

R = Registry('C22')

LABELS = {'meijaard': 'BFHR', 'feedback': 'BFHR', 'moore': 'DFHPR'}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['meijaard', 'moore', 'moore', 'feedback']))
    g = {'meijaard': gen.meijaard, 'feedback': gen.meijaard_feedback,
         'moore': gen.moore2019}[kind]
    p = draw(g())
    if draw(st.integers(0, 5)) == 0:
        # frame and fork meet the steer axis in one point
        p.update(lam=0.0, rF=p['rR'])
    bodies = draw(st.one_of(st.none(), gen.subset(LABELS[kind], 0)))
    case = {'kind': kind, 'p': p, 'bodies': bodies,
            'what': draw(st.sampled_from(['geometry', 'centres', 'radii',
                                          'ellipsoids', 'all', 'person',
                                          'one'])),
            'ax': draw(st.booleans()), 'flag': draw(st.sampled_from(
                [None, True, False])),
            'before': draw(st.booleans()), 'q': None}
    if draw(st.integers(0, 3)) == 0:
        case['q'] = draw(g())        # the parameters are changed afterwards
    return case


def make(kind, p):
    if kind == 'moore':
        return ps.Moore2019ParameterSet(dict(p))
    if kind == 'feedback':
        return api.fbset(p)
    return api.mset(p)


def body(kind, p, b):
    """m, (x, z), Ixx, Iyy, Izz, Ixz of a body."""
    if b == 'R':
        pos = (0.0, -p['rR'])
    elif b == 'F':
        pos = (p['w'], -p['rF'])
    else:
        pos = (p['x' + b], p['z' + b])
    m = p['m' + b]
    if kind == 'moore':
        kaa, kyy = p['k%saa' % b], p['k%syy' % b]
        kbb = p.get('k%sbb' % b, kaa) if b not in 'RF' else kaa
        al = p['alpha' + b] if b not in 'RF' else 0.0
        u = np.array([np.cos(al), -np.sin(al)])      # axis a in x, z
        n = np.array([np.sin(al), np.cos(al)])
        plane = m*(kaa**2*np.outer(u, u) + kbb**2*np.outer(n, n))
        return m, pos, plane[0, 0], m*kyy**2, plane[1, 1], plane[0, 1]
    ixx, iyy = p['I%sxx' % b], p['I%syy' % b]
    if b in 'RF':
        return m, pos, ixx, iyy, ixx, 0.0
    return m, pos, ixx, iyy, p['I%szz' % b], p['I%sxz' % b]


def near(a, b, tol=1e-9):
    return np.max(np.abs(np.asarray(a) - np.asarray(b))) <= tol


def take(items, pred, what):
    for k, it in enumerate(items):
        if pred(it):
            return items.pop(k)
    expect(False, 'not drawn: {} (drawn: {!r})', what, items)


class Seen:
    def __init__(self, ax):
        s = figs.shapes(ax)
        self.circles, self.ellipses = s['circle'], s['ellipse']
        self.wedges = s['wedge']
        self.lines = figs.segments(ax)
        self.ground = figs.ground_lines(ax)
        self.texts = [(t.get_text(), t.get_position()) for t in ax.texts]

    def nothing_left(self):
        for name in ('circles', 'ellipses', 'wedges', 'lines', 'ground',
                     'texts'):
            expect(not getattr(self, name), 'more is drawn than asked for: '
                   '{} {!r}', name, getattr(self, name))


def check_geometry(seen, p, axis):
    for x, r, what in ((0.0, p['rR'], 'rear wheel'),
                       (p['w'], p['rF'], 'front wheel')):
        take(seen.circles, lambda c: near(c[0], (x, -r)) and near(c[1], r),
             what)
    expect(len(seen.ground) == 1 and seen.ground[0] == 0.0,
           'ground lines {!r}', seen.ground)
    seen.ground.pop()
    # frame and fork: perpendiculars from the wheel centres to the steer axis
    down = np.array([np.sin(p['lam']), np.cos(p['lam'])])
    foot = np.array([p['w'] + p['c'], 0.0])
    rear, front = np.array([0., -p['rR']]), np.array([p['w'], -p['rF']])
    a = foot + down*(down @ (rear - foot))
    b = foot + down*(down @ (front - foot))
    take(seen.lines, lambda s: s.shape == (4, 2) and near(
        s, [rear, a, b, front], 1e-8), 'frame and fork %r' % (
            [rear, a, b, front],))
    if axis:
        take(seen.lines, lambda s: s.shape == (2, 2) and near(
            s, [b, foot], 1e-9), 'steer axis from %r to %r' % (b, foot))


def check_centres(seen, kind, p, bodies):
    for b in bodies:
        pos = np.array(body(kind, p, b)[1])
        c = take(seen.circles, lambda c: near(c[0], pos), 'mass centre of '
                 + b)
        expect(0.0 < c[1] < max(p['w'], p.get('lP', 0.0)),
               'size of the symbol of {}: {}', b, c[1])
        for k in range(2):
            take(seen.wedges, lambda w: near(w[0], pos) and w[1] == c[1],
                 'quadrants of the symbol of ' + b)
        t = take(seen.texts, lambda t: t[0] == b, 'label ' + b)
        expect(np.linalg.norm(np.array(t[1]) - pos) < 3*c[1],
               'label {} is at {!r}, mass centre at {!r}', b, t[1], pos)


def check_radii(seen, kind, p, bodies):
    for b in bodies:
        m, pos, ixx, iyy, izz, ixz = body(kind, p, b)
        take(seen.circles, lambda c: near(c[0], pos) and near(
            c[1], np.sqrt(iyy/m)), 'radius of gyration about y of ' + b)
        plane = np.array([[ixx, ixz], [ixz, izz]])/m

        def centred(s):
            return s.shape == (2, 2) and near(s.mean(0), pos)
        # (two bodies may have one mass centre: look for any pair that fits)
        cand = [k for k, s in enumerate(seen.lines) if centred(s)]
        ok = None
        for i in cand:
            for j in cand:
                if i >= j:
                    continue
                h = [(seen.lines[k][1] - seen.lines[k][0])/2 for k in (i, j)]
                if abs(h[0] @ h[1]) > 1e-6*np.linalg.norm(
                        h[0])*np.linalg.norm(h[1]):
                    continue
                tens = sum(np.outer([-q[1], q[0]], [-q[1], q[0]]) for q in h)
                if near(tens, plane, 1e-7*np.trace(plane)):
                    ok = i, j
        expect(ok is not None, 'lines of the principal radii of gyration of '
               '{}: {!r}; inertia in the plane {!r}', b,
               [seen.lines[k] for k in cand], plane.tolist())
        for k in sorted(ok, reverse=True):
            seen.lines.pop(k)


def check_ellipsoids(seen, kind, p, bodies):
    for b in bodies:
        m, pos, ixx, iyy, izz, ixz = body(kind, p, b)
        # second moments of the mass in the x z plane of a solid ellipsoid
        # are one fifth of the squared semi axes
        want = 5.0/m*np.array([[(iyy + izz - ixx)/2.0, -ixz],
                               [-ixz, (iyy + ixx - izz)/2.0]])

        def matrix(e):
            t = np.deg2rad(e[3])
            u = np.array([np.cos(t), np.sin(t)])
            n = np.array([-np.sin(t), np.cos(t)])
            return (np.outer(u, u)*(e[1]/2)**2 + np.outer(n, n)*(e[2]/2)**2)
        take(seen.ellipses, lambda e: near(e[0], pos) and near(
            matrix(e), want, 1e-7*(ixx + iyy + izz)/m),
            'ellipse at %r with matrix %r for body %s; matrices drawn %r' % (
                pos, want.tolist(), b, [matrix(e).tolist()
                                        for e in seen.ellipses]))


def check_person(seen, p, cross):
    a = np.array([np.cos(p['alphaP']), -np.sin(p['alphaP'])])
    b = np.array([np.sin(p['alphaP']), np.cos(p['alphaP'])])
    c = np.array([p['xP'], p['zP']])
    tips = [c + a*p['wP']/2, c - b*p['lP']/2, c - a*p['wP']/2,
            c + b*p['lP']/2]

    def diamond(s):
        return s.shape == (5, 2) and near(s[0], s[4]) and any(
            near(s[:4], np.roll(tips[::d], k, axis=0), 1e-9)
            for k in range(4) for d in (1, -1))
    take(seen.lines, diamond, 'outline of the person %r' % (tips,))
    if cross:
        for i in (0, 1):
            ends = np.array([tips[i], tips[i + 2]])
            take(seen.lines, lambda s: s.shape == (2, 2) and (
                near(s, ends) or near(s, ends[::-1])), 'cross in the person')


def solid(kind, p, bodies):
    """All axes of the ellipsoids are clearly positive."""
    for b in bodies:
        m, _, ixx, iyy, izz, ixz = body(kind, p, b)
        s = np.array([[(iyy + izz - ixx)/2.0, -ixz],
                      [-ixz, (iyy + ixx - izz)/2.0]])
        if np.linalg.eigvalsh(s)[0] < 1e-6*iyy:
            return False
    return True


def draw_(pset, case, bodies, ax):
    kw = {} if ax is None else {'ax': ax}
    what = case['what']
    one = bodies[0] if bodies else None
    if what == 'geometry':
        if case['flag'] is not None:
            kw['show_steer_axis'] = case['flag']
        return pset.plot_geometry(**kw)
    if what == 'person':
        if case['flag'] is not None:
            kw['show_cross'] = case['flag']
        return pset.plot_person_diamond(**kw)
    if what == 'all':
        return pset.plot_all(**kw)
    if what == 'one':
        ax = pset.plot_body_mass_center(one, **kw)
        pset.plot_body_principal_radii_of_gyration(one, ax=ax)
        return pset.plot_body_principal_inertia_ellipsoid(one, ax=ax)
    f = {'centres': pset.plot_mass_centers,
         'radii': pset.plot_principal_radii_of_gyration,
         'ellipsoids': pset.plot_principal_inertia_ellipsoids}[what]
    if case['bodies'] is not None:
        kw['bodies'] = list(bodies)
    return f(**kw)


@R.prop(cases, quick=700, thorough=9000, shards=8,
        rule='a body is drawn, or geometry with unequal wheels')
def drawings(case, ctx):
    kind, p = case['kind'], dict(case['p'])
    if case['what'] == 'person' and kind != 'moore':
        case = dict(case, what='all')
    pset = make(kind, p)
    labels = list(LABELS[kind])
    bodies = labels if case['bodies'] is None else case['bodies']
    if case['what'] == 'one':
        bodies = (bodies or labels)[:1]
    elif case['what'] == 'all':
        bodies = labels
    if case['what'] in ('ellipsoids', 'all', 'one') and not solid(
            kind, case['q'] or p, bodies):
        raise Skip
    with figs.Closing() as plt:
        if case['q'] is not None:
            if case['before']:
                draw_(pset, dict(case, what='geometry'), bodies, None)
            pset.parameters.update(case['q'])
            p = dict(case['q'])
        given = plt.subplots(2)[1][0] if case['ax'] else None
        ax = draw_(pset, case, bodies, given)
        if given is not None:
            expect(ax is given, 'not drawn in the given axes')
        seen = Seen(ax)
        what = case['what']
        if what in ('radii', 'all', 'one'):
            check_radii(seen, kind, p, bodies)
        if what in ('ellipsoids', 'all', 'one'):
            check_ellipsoids(seen, kind, p, bodies)
        if what == 'person' or (what == 'all' and kind == 'moore'):
            check_person(seen, p, what == 'person' and case['flag'])
        if what in ('geometry', 'all'):
            check_geometry(seen, p, what == 'all' or case['flag'] is not
                           False)
        if what in ('centres', 'all', 'one'):
            check_centres(seen, kind, p, bodies)
        seen.nothing_left()
        expect(ax.yaxis_inverted(), 'z does not point down')
        expect(ax.get_aspect() in ('equal', 1.0), 'aspect {!r}',
               ax.get_aspect())
        expect('x' in ax.get_xlabel() and '[m]' in ax.get_xlabel() and
               'z' in ax.get_ylabel() and '[m]' in ax.get_ylabel(),
               'labels {!r} {!r}', ax.get_xlabel(), ax.get_ylabel())
        # everything is inside the limits
        pts = []
        for c, r, *_ in figs.shapes(ax)['circle']:
            pts += [(c[0] - r, c[1]), (c[0] + r, c[1]), (c[0], c[1] - r),
                    (c[0], c[1] + r)]
        for s in figs.segments(ax):
            pts += list(map(tuple, s))
        if pts:
            pts = np.array(pts)
            for lim, v in ((ax.get_xlim(), pts[:, 0]),
                           (ax.get_ylim(), pts[:, 1])):
                expect(min(lim) <= v.min() + 1e-9 and
                       max(lim) >= v.max() - 1e-9, 'limits {!r} cut off '
                       'what is drawn from {!r} to {!r}', lim, v.min(),
                       v.max())
        # drawing again into the same axes does not turn it over
        if case['before']:
            pset.plot_mass_centers(ax=ax)
            expect(ax.yaxis_inverted(), 'z does not point down after a '
                   'second drawing')
    equal(dict(pset.parameters), p, 'parameters after drawing')
    ctx.label(kind, case['what'], 'changed' if case['q'] else 'as built')
    ctx.nontrivial(what != 'geometry' or p['rR'] != p['rF'])


@R.prop(cases, quick=60, thorough=800, shards=2, rule='at least two bodies')
def colors_tell_bodies_apart(case, ctx):
    kind = case['kind']
    pset = make(kind, case['p'])
    bodies = case['bodies'] or list(LABELS[kind])
    if not solid(kind, case['p'], bodies):
        raise Skip
    colors = {}
    with figs.Closing():
        for b in bodies:
            ax = pset.plot_body_principal_radii_of_gyration(b)
            ax2 = pset.plot_body_principal_inertia_ellipsoid(b)
            ax3 = pset.plot_body_mass_center(b)
            got = {figs.rgba(ln.get_color())[:3] for ln in ax.lines}
            got |= {tuple(q.get_edgecolor()[:3]) for q in ax.patches}
            got |= {tuple(q.get_edgecolor()[:3]) for q in ax2.patches}
            got |= {tuple(w[-1].get_facecolor()[:3])
                    for w in figs.shapes(ax3)['wedge']}
            expect(len(got) == 1, 'body {} is drawn in several colors {!r}',
                   b, got)
            colors[b] = got.pop()
    expect(len(set(colors.values())) == len(colors), 'bodies share a color: '
           '{!r}', colors)
    ctx.label(kind)
    ctx.nontrivial(len(bodies) > 1)
