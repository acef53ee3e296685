"""C08: conversion between parameterizations keeps the bicycle."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import api, gen, ref
from vlib.core import Registry, close, equal, expect, raises

R = Registry('C08')


def five_bodies(p):
    """The Moore2019 bicycle as bodies: axis a of each body is the x axis
    turned by alpha about y."""
    def tens(b, wheel=False):
        al = 0.0 if wheel else p['alpha' + b]
        a = np.array([math.cos(al), 0.0, -math.sin(al)])
        y = np.array([0.0, 1.0, 0.0])
        n = np.cross(a, y)
        kbb = p['k%saa' % b] if wheel else p['k%sbb' % b]
        return p['m' + b]*(p['k%saa' % b]**2*np.outer(a, a) +
                           p['k%syy' % b]**2*np.outer(y, y) +
                           kbb**2*np.outer(n, n))
    spin = {b: p['m' + b]*p['k%syy' % b]**2/p['r' + b] for b in 'RF'}
    return [(p['mR'], (0., -p['rR']), tens('R', True), 'rear', spin['R']),
            (p['mD'], (p['xD'], p['zD']), tens('D'), 'rear', 0.),
            (p['mP'], (p['xP'], p['zP']), tens('P'), 'rear', 0.),
            (p['mH'], (p['xH'], p['zH']), tens('H'), 'front', 0.),
            (p['mF'], (p['w'], -p['rF']), tens('F', True), 'front',
             spin['F'])]


def whole(bodies):
    m = sum(b[0] for b in bodies)
    c = sum(b[0]*np.array([b[1][0], 0., b[1][1]]) for b in bodies)/m
    I = np.zeros((3, 3))
    for b in bodies:
        d = np.array([b[1][0], 0., b[1][1]]) - c
        I += b[2] + b[0]*(d @ d*np.eye(3) - np.outer(d, d))
    return m, c, I


def same_dynamics(model, bodies, p, who):
    M, C1, K0, K2, _ = ref.matrices(bodies, p['w'], p['c'], p['lam'])
    q = model.parameter_set.parameters
    sc = ref.scale({k: v for k, v in q.items()
                    if not k.startswith(('kT', 'y'))})
    got = model.form_reduced_canonical_matrices()
    for n, a, b in zip(('M', 'C1', 'K0', 'K2'), got, (M, C1, K0, K2)):
        close(a, b, '%s of %s' % (n, who), rtol=1e-9, atol=1e-10*sc[n])


EXTRA = ['yD', 'yF', 'yH', 'yP', 'yR', 'alphaF', 'alphaR']


@R.prop(lambda: st.tuples(gen.moore2019(), gen.subset(EXTRA)), quick=600,
        thorough=10000, shards=2,
        rule='rear frame, rider and fork all have tilted principal axes')
def principal_to_benchmark(case, ctx):
    p, extra = case
    given_ = dict(p, **{k: 0.0 for k in extra})
    s = api.ps.Moore2019ParameterSet(dict(given_))
    bodies = five_bodies(p)
    sets = {'converted': s.to_parameterization('Meijaard2007'),
            'with feedback': s.to_parameterization(
                'Meijaard2007WithFeedback')}
    equal(dict(s.parameters), given_, 'parameters of the converted set')
    for who, b in sets.items():
        equal(b.parameterization, {'converted': 'Meijaard2007'}.get(
            who, 'Meijaard2007WithFeedback'), 'name of the ' + who)
        q = b.parameters
        for k in ('w', 'c', 'lam', 'g', 'v', 'rR', 'rF', 'mR', 'mF', 'mH',
                  'xH', 'zH'):
            close(q[k], p[k], k, rtol=1e-14)
        equal(b.includes_rider, True, 'rider included')
        m, c, I = whole([x for x in bodies[1:3]])
        close(q['mB'], m, 'mass of frame and rider')
        close(b.mass_center_of('B'), c, 'mass centre of frame and rider',
              atol=1e-12)
        close(b.form_inertia_tensor('B'), I, 'inertia of frame and rider',
              atol=1e-11*np.abs(I).max() + 1e-12*m*(1 + c @ c))
        for body, i in (('R', 0), ('H', 3), ('F', 4)):
            close(b.form_inertia_tensor(body), bodies[i][2],
                  'inertia of ' + body,
                  atol=1e-12*np.abs(bodies[i][2]).max())
            close(b.mass_center_of(body), s.mass_center_of(body),
                  'mass centre of ' + body)
        # values that come along are those of the same bicycle
        for body in 'RF':
            if 'I%szz' % body in q:
                close(q['I%szz' % body], q['I%sxx' % body],
                      'I%szz' % body)
        for k in ('yH', 'yB'):
            expect(q.get(k, 0.0) == 0.0, '{} is {!r}', k, q.get(k))
        close(s.mass_center_of('D', 'P'), c, 'mass centre in the original')
        close(b.mass_center_of('B', 'H', 'R', 'F'),
              s.mass_center_of('D', 'P', 'H', 'R', 'F'),
              'total mass centre', atol=1e-12)
    same_dynamics(api.md.Meijaard2007Model(s), bodies, p, 'the plain model')
    f = api.md.Meijaard2007WithFeedbackModel(s)
    same_dynamics(f, bodies, p, 'the feedback model')
    A, B = api.md.Meijaard2007Model(s).form_state_space_matrices()
    A2, B2 = f.form_state_space_matrices()
    close(A2, A, 'A of the feedback model, gains zero', rtol=1e-12)
    close(B2, B, 'B of the feedback model', rtol=1e-12)
    ctx.label('minimal' if not extra else 'with derived')
    ctx.nontrivial(all(p['alpha' + k] != 0 for k in 'DHP'))


def four_bodies_moore2012(p):
    q = dict(p, l5=0.0, l6=0.0, d4=0.0, mg=0.0, ig11=0.0, ig22=0.0,
             ig33=0.0, ig31=0.0)
    bodies, w, c, lam, _ = ref.bodies_from_riderlean(q)
    return bodies[:-1], w, c, lam


@R.prop(lambda: st.tuples(gen.meijaard(), st.booleans()), quick=500,
        thorough=9000, shards=2,
        rule='tilted steer axis and both frames have a product of inertia')
def benchmark_to_distances(case, ctx):
    """Meijaard2007 to Moore2012: offsets from the steer axis and inertia
    about axes aligned with it describe the same bicycle."""
    p, rider = case
    s = api.mset(p, rider)
    b = s.to_parameterization('Moore2012')
    equal(dict(s.parameters), p, 'parameters of the converted set')
    equal(b.parameterization, 'Moore2012', 'name')
    equal(b.includes_rider, rider, 'rider flag')
    q = {k: float(b.parameters[k]) for k in b.par_strings}
    close(q['v'], p['v'], 'speed')
    close(q['g'], p['g'], 'gravity')
    lam = p['lam']
    if p['w']*math.cos(lam) - (p['rR'] - p['rF'])*math.sin(lam) < 0.02:
        bodies = None            # tilt is not uniquely given by the offsets
        ctx.label('folded')
    else:
        bodies, w, c, lam2 = four_bodies_moore2012(q)
        h = 1.0/(w*math.cos(lam) - (p['rR'] - p['rF'])*math.sin(lam))
        tol = 1e-10*(1 + h)*(1 + p['w'])/math.cos(lam)**2
        close(lam2, lam, 'steer axis tilt', atol=tol)
        close(w, p['w'], 'wheelbase', atol=tol)
        close(c, p['c'], 'trail', atol=tol)
        want = ref.bodies_from_meijaard(p)
        for name, x, y in zip(('rear wheel', 'frame', 'fork',
                               'front wheel'), bodies, want):
            close(x[0], y[0], 'mass of the ' + name)
            close(x[1], y[1], 'mass centre of the ' + name, atol=10*tol)
            close(x[2], y[2], 'inertia of the ' + name,
                  atol=(10*tol + 1e-10)*np.abs(y[2]).max())
            close(x[4], y[4], 'spin inertia of the ' + name)
    ctx.nontrivial(bodies is not None and lam != 0 and p['IBxz'] != 0 and
                   p['IHxz'] != 0)


@R.prop(lambda: st.tuples(gen.meijaard_feedback(), st.booleans()),
        quick=300, thorough=5000, rule='every generated bicycle')
def adding_feedback(case, ctx):
    p, rider = case
    plain = {k: v for k, v in p.items() if k not in gen.GAINS}
    # (a set without gains ignores what else there is in the dictionary)
    more = api.mset(p, rider)
    r = more.to_parameterization('Meijaard2007WithFeedback')
    for a, b in zip(api.md.Meijaard2007WithFeedbackModel(
            r).form_state_space_matrices(), api.md.Meijaard2007Model(
            more).form_state_space_matrices()):
        close(a, b, 'state space of a set with further values', rtol=1e-12)
    equal(dict(more.parameters), p, 'parameters of the set with further '
          'values')
    s = api.mset(plain, rider)
    f = s.to_parameterization('Meijaard2007WithFeedback')
    equal(dict(s.parameters), plain, 'parameters of the converted set')
    equal(dict(f.parameters), dict(plain, **{k: 0.0 for k in gen.GAINS}),
          'converted parameters')
    equal(f.includes_rider, rider, 'rider flag')
    expect(type(f) is api.ps.Meijaard2007WithFeedbackParameterSet,
           'type {}', type(f))
    # changing the new set does not reach the old one
    f.parameters['v'] = 99.0
    equal(s.parameters['v'], plain['v'], 'speed of the original')
    # a set that already has gains keeps them
    f2 = api.fbset(p, rider)
    g = f2.to_parameterization('Meijaard2007WithFeedback')
    equal(dict(g.parameters), p, 'gains of a set that has them')
    m = api.fbset(p, rider).to_parameterization('Moore2012')
    m2 = s.to_parameterization('Moore2012')
    equal({k: float(m.parameters[k]) for k in m.par_strings},
          {k: float(m2.parameters[k]) for k in m2.par_strings},
          'offsets from the set with gains')
    ctx.nontrivial()


MAKE = {'Meijaard2007': (gen.meijaard, api.mset),
        'Meijaard2007WithFeedback': (gen.meijaard_feedback, api.fbset),
        'Moore2019': (gen.moore2019,
                      lambda p: api.ps.Moore2019ParameterSet(dict(p))),
        'MooreRiderLean2012': (
            gen.riderlean,
            lambda p: api.ps.MooreRiderLean2012ParameterSet(dict(p)))}
CAN = {'Meijaard2007': {'Meijaard2007', 'Meijaard2007WithFeedback',
                        'Moore2012'},
       'Meijaard2007WithFeedback': {'Meijaard2007WithFeedback', 'Moore2012',
                                    'Meijaard2007'},
       'Moore2019': {'Moore2019', 'Meijaard2007',
                     'Meijaard2007WithFeedback'},
       'MooreRiderLean2012': {'MooreRiderLean2012'},
       'Moore2012': {'Moore2012'}}
NAMES = sorted(CAN) + ['meijaard2007', 'Meijaard2007ParameterSet', '',
                       'Meijaard', 'Moore', 'Bogus', 'Meijaard2007 ']


@R.prop(lambda: st.sampled_from(sorted(MAKE)).flatmap(
    lambda k: st.tuples(st.just(k), MAKE[k][0](),
                        st.sampled_from(NAMES))),
        quick=300, thorough=4000, rule='the name asked for is another one')
def names(case, ctx):
    kind, p, name = case
    s = MAKE[kind][1](p)
    equal(s.parameterization, kind, 'own name')
    expect(s.to_parameterization(kind) is s, 'asking for its own '
           'parameterization does not return the set itself')
    sets = [s]
    if kind == 'Meijaard2007':
        sets.append(s.to_parameterization('Moore2012'))
    for s in sets:
        k = s.parameterization
        if name in CAN[k]:
            if name != 'Meijaard2007' or k != 'Meijaard2007WithFeedback':
                equal(s.to_parameterization(name).parameterization, name,
                      'name of the converted set')
        else:
            raises(ValueError, lambda: s.to_parameterization(name),
                   '%s to %r' % (k, name))
        equal({x: s.parameters[x] for x in s.par_strings if x in p},
              {x: p[x] for x in s.par_strings if x in p},
              'parameters afterwards')
    ctx.label('known' if name in CAN[kind] else 'refused')
    ctx.nontrivial(name != kind)
