"""C10: mass centres and inertia tensors of a parameter set's bodies."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import api, gen
from vlib.core import Registry, close, equal

R = Registry('C10')


def meijaard_bodies(p):
    z = {'B': (p['xB'], p['zB']), 'H': (p['xH'], p['zH']),
         'R': (0.0, -p['rR']), 'F': (p['w'], -p['rF'])}
    return {k: (p['m' + k], np.array([x, 0.0, y]))
            for k, (x, y) in z.items()}


def moore_bodies(p):
    z = {'D': (p['xD'], p['zD']), 'H': (p['xH'], p['zH']),
         'P': (p['xP'], p['zP']), 'R': (0.0, -p['rR']),
         'F': (p['w'], -p['rF'])}
    return {k: (p['m' + k], np.array([x, 0.0, y]))
            for k, (x, y) in z.items()}


KIND = {'Meijaard2007': (gen.meijaard, api.mset, meijaard_bodies),
        'Meijaard2007WithFeedback': (gen.meijaard_feedback, api.fbset,
                                     meijaard_bodies),
        'Moore2019': (gen.moore2019,
                      lambda p: api.ps.Moore2019ParameterSet(dict(p)),
                      moore_bodies)}


@st.composite
def cases(draw):
    k = draw(st.sampled_from(sorted(KIND)))
    p = draw(KIND[k][0]())
    labels = sorted(KIND[k][2](p))
    return [k, p, draw(st.permutations(labels)),
            draw(st.integers(1, len(labels)))]


@R.prop(cases, quick=800, thorough=14000, shards=2,
        rule='a group of at least two bodies')
def mass_centres(case, ctx):
    kind, p, order, n = case
    _, make, bodies = KIND[kind]
    s = make(p)
    want = bodies(p)
    equal(sorted(s.body_labels), sorted(want), 'body labels')
    for b, (m, c) in want.items():
        close(s.form_mass_center_vector(b), c, 'mass centre of ' + b,
              rtol=1e-15)
        close(s.mass_center_of(b), c, 'mass centre of the group of ' + b,
              rtol=1e-15)
    group = order[:n]
    M = math.fsum(want[b][0] for b in group)
    c = sum(want[b][0]*want[b][1] for b in group)/M
    size = max(np.abs(want[b][1]).max() for b in group)
    close(s.mass_center_of(*group), c, 'mass centre of ' + ' '.join(group),
          rtol=1e-12, atol=1e-14*size)
    close(s.mass_center_of(*reversed(group)), c, 'the same group reversed',
          rtol=1e-12, atol=1e-14*size)
    # every body together: split into this group and the others
    rest = order[n:]
    if rest:
        m2 = math.fsum(want[b][0] for b in rest)
        c2 = np.asarray(s.mass_center_of(*rest), float)
        total = np.asarray(s.mass_center_of(*order), float)
        close(total*(M + m2), c*M + c2*m2, 'moments of the two groups',
              rtol=1e-12, atol=1e-13*size*(M + m2))
    # vectors handed out are the caller's to change
    v = s.form_mass_center_vector(order[0])
    v[:] = 7.0
    close(s.form_mass_center_vector(order[0]), want[order[0]][1],
          'mass centre after changing an earlier answer')
    equal(dict(s.parameters), p, 'parameters afterwards')
    ctx.label(kind, 'n=%d' % n)
    ctx.nontrivial(n > 1)


@R.prop(lambda: st.tuples(gen.meijaard_feedback(), st.booleans(),
                          st.booleans()),
        quick=400, thorough=8000,
        rule='both frames have a product of inertia')
def inertia_tensors(case, ctx):
    p, feedback, rider = case
    if not feedback:
        p = {k: v for k, v in p.items() if k not in gen.GAINS}
    s = api.fbset(p, rider) if feedback else api.mset(p, rider)
    for b in 'BHRF':
        zz = p['I%szz' % b] if b in 'BH' else p['I%sxx' % b]
        xz = p['I%sxz' % b] if b in 'BH' else 0.0
        want = np.array([[p['I%sxx' % b], 0., xz], [0., p['I%syy' % b], 0.],
                         [xz, 0., zz]])
        t = s.form_inertia_tensor(b)
        close(t, want, 'inertia of ' + b, rtol=1e-15)
        t[:] = 0.0
        close(s.form_inertia_tensor(b), want, 'inertia of %s, again' % b,
              rtol=1e-15)
    equal(dict(s.parameters), p, 'parameters afterwards')
    ctx.nontrivial(p['IBxz'] != 0 and p['IHxz'] != 0)


@R.prop(lambda: st.tuples(gen.meijaard(), gen.fl(-3.0, 3.0),
                          gen.fl(0.1, 4.0)), quick=300, thorough=5000,
        rule='shift is not zero')
def follows_the_current_values(case, ctx):
    """Answers are about the values the set holds now."""
    p, dx, f = case
    s = api.mset(p)
    before = np.asarray(s.mass_center_of('B', 'H', 'F', 'R'))
    total = sum(p['m' + b] for b in 'BHFR')
    s.parameters['xB'] = p['xB'] + dx
    s.parameters['IBxz'] = p['IBxz'] + dx
    after = np.asarray(s.mass_center_of('B', 'H', 'F', 'R'))
    close(after - before, [dx*p['mB']/total, 0.0, 0.0],
          'shift of the total mass centre', atol=1e-12)
    close(s.form_inertia_tensor('B')[0, 2], p['IBxz'] + dx,
          'product of inertia')
    s.parameters['rF'] = p['rF']*f
    s.parameters['w'] = p['w']*f
    close(s.form_mass_center_vector('F'), [p['w']*f, 0.0, -p['rF']*f],
          'front wheel centre')
    ctx.nontrivial(dx != 0)
