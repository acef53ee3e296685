"""C25: inertia of the steer assembly about axes aligned with the steer
axis."""
import math

import numpy as np
from hypothesis import strategies as st

from bicycleparameters.main import Bicycle
from vlib import api, gen, measure
from vlib.core import Registry, Skip, close, expect
from checks.C15 import gradient

R = Registry('C25')


@st.composite
def assemblies_(draw):
    if draw(st.booleans()):
        p = draw(gen.meijaard())
        p.pop('v')
        if draw(st.integers(0, 5)) == 0:
            p.pop('IHyy')
    else:
        p = measure.forward(draw(measure.bikes()))[1]
    out = {'p': p, 'grip': draw(st.booleans()), 'fork': draw(st.booleans()),
           'wheel': draw(st.booleans()), 'axis': draw(st.booleans()),
           'nominal': draw(st.booleans()), 'defaults': draw(
               st.integers(0, 5)) == 0, 'std': {}}
    if draw(st.booleans()):
        for k in sorted(p):
            if draw(st.integers(0, 3)):
                out['std'][k] = (abs(p[k]) + 0.01)*draw(gen.fl(1e-4, 0.02))
    return out


def moment(par, part, wheel, axis):
    """Tensor from the definition: for unit vectors a and b, the sum over
    the bodies of a.I.b + m (a.b d.d - a.d b.d), d from the reference point
    to the mass centre."""
    bodies = []
    if part:
        q = par['I%sxz' % part]
        bodies.append((par['m' + part],
                       np.array([par['x' + part], 0.0, par['z' + part]]),
                       np.array([[par['I%sxx' % part], 0.0, q],
                                 [0.0, par.get('I%syy' % part, 0.0), 0.0],
                                 [q, 0.0, par['I%szz' % part]]])))
    if wheel:
        bodies.append((par['mF'], np.array([par['w'], 0.0, -par['rF']]),
                       np.diag([par['IFxx'], par['IFyy'], par['IFxx']])))
    lam = par['lam']
    down = np.array([math.sin(lam), 0.0, math.cos(lam)])
    ahead = np.array([math.cos(lam), 0.0, -math.sin(lam)])
    right = np.array([0.0, 1.0, 0.0])
    if not bodies:
        return np.zeros(9)
    m = sum(b[0] for b in bodies)
    c = sum(b[0]*b[1] for b in bodies)/m
    if axis:
        ground = np.array([par['w'] + par['c'], 0.0, 0.0])
        c = ground + down*(down @ (c - ground))
    out = []
    for a in (ahead, right, down):
        for b in (ahead, right, down):
            t = 0.0
            for mass, pos, I in bodies:
                d = pos - c
                t += a @ I @ b + mass*((a @ b)*(d @ d) - (a @ d)*(b @ d))
            out.append(t)
    return np.array(out)


@R.prop(assemblies_, quick=600, thorough=12000, shards=8,
        rule='at least one body is included')
def steer_assembly(case, ctx):
    p, s = case['p'], case['std']
    api.write_bike(ctx.tmp, 'Abike', benchmark={
        k: [v, s[k]] if s.get(k) else v for k, v in p.items()})
    bike = Bicycle('Abike', pathToData=ctx.tmp)
    keep = dict(bike.parameters['Benchmark'])
    grip, fork, wheel, axis, nominal = (
        case[k] for k in ('grip', 'fork', 'wheel', 'axis', 'nominal'))
    kw = dict(handlebar=grip, fork=fork, wheel=wheel, aboutSteerAxis=axis,
              nominal=nominal)
    if case['defaults']:
        kw, grip, fork, wheel, axis, nominal = {}, True, True, True, False, \
            False
    part = {(True, True): 'H', (True, False): 'G', (False, True): 'S',
            (False, False): None}[grip, fork]
    if part and 'm' + part not in p:
        try:
            got = bike.steer_assembly_moment_of_inertia(**kw)
        except ValueError:
            ctx.label('not split')
            return
        expect(False, 'no ValueError for parts that were not measured: {!r}',
               got)
    if axis and not part and not wheel:
        raise Skip
    got = np.asarray(bike.steer_assembly_moment_of_inertia(**kw))
    expect(got.shape == (3, 3), 'shape {!r}', got.shape)
    keys = sorted(p)
    want = moment(p, part, wheel, axis)
    size = max(np.abs(want).max(), 1e-3)
    flat = got.ravel().tolist()
    mass = p['mF'] + (p['m' + part] if part else 0.0)
    reach = 4.0 + p['w']**2 + p['c']**2
    nom = np.array([float(getattr(q, 'nominal_value', q)) for q in flat])
    close(nom, want, 'inertia', rtol=0, atol=1e-10*(size + mass*reach))
    dev = [float(getattr(q, 'std_dev', 0.0)) for q in flat]
    if nominal:
        expect(not any(hasattr(q, 'std_dev') for q in flat), 'nominal values '
               'are uncertain')
    elif s:
        J = gradient(lambda y: moment(y, part, wheel, axis), p, keys)
        e = np.sqrt(((J*np.array([s.get(k, 0.0) for k in keys])[:, None])
                     ** 2).sum(axis=0))
        close(np.array(dev), e, 'standard deviations', rtol=2e-5,
              atol=1e-6*max(e.max(), 1e-3*size))
    after = bike.parameters['Benchmark']
    expect(list(after) == list(keep) and all(
        after[k] is keep[k] for k in keep), 'parameters were changed')
    ctx.label('part %s' % part, 'wheel' if wheel else 'no wheel',
              'axis' if axis else 'mass centre', 'uncertain' if s else
              'exact')
    ctx.nontrivial(bool(part) or wheel)
