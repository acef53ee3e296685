"""C01: the linearized equations of motion are those of the mechanism."""
import numpy as np
from hypothesis import strategies as st

from vlib import api, gen, ref
from vlib.core import Registry, close, equal, expect, numeric

R = Registry('C01')
NAMES = ('M', 'C1', 'K0', 'K2')


def against(mats, p, who):
    want = ref.meijaard(p)
    sc = ref.scale(p)
    for name, a, e in zip(NAMES, mats, want):
        close(a, e, '%s of %s' % (name, who), rtol=1e-9,
              atol=1e-11*sc[name])
    return want


def interesting(p, ctx):
    ctx.label('lam=0' if p['lam'] == 0 else 'lam<0' if p['lam'] < 0
              else 'lam>0')
    ctx.label('c=0' if p['c'] == 0 else 'c<0' if p['c'] < 0 else 'c>0')
    ctx.nontrivial(p['IBxz'] != 0 and p['IHxz'] != 0 and p['lam'] != 0)


@R.prop(gen.bicycle, quick=1200, thorough=20000, shards=2,
        rule='both frames have a product of inertia and the steer axis is '
             'tilted')
def matrices_match_mechanics(p, ctx):
    given = dict(p)
    mats = api.bk.benchmark_par_to_canonical(given)
    against(mats, p, 'the function')
    equal(given, p, 'parameters after the call')
    M, _, K0, _ = [numeric(m) for m in mats]
    close(M, M.T, 'M transposed', atol=1e-13*np.abs(M).max(), rtol=0)
    close(K0, K0.T, 'K0 transposed', atol=1e-13*np.abs(K0).max(), rtol=0)
    expect(np.linalg.eigvalsh(M)[0] > 0, 'M is not positive definite: {}', M)
    interesting(p, ctx)


@R.prop(lambda: st.tuples(gen.bicycle_feedback(), st.booleans()),
        quick=500, thorough=8000, rule='as above')
def models_match_mechanics(case, ctx):
    p, rider = case
    plain = {k: v for k, v in p.items() if not k.startswith('kT')}
    m = api.mmodel(plain, rider)
    against(m.form_reduced_canonical_matrices(), plain, 'the model')
    # asking twice, and after another question, gives the same answer
    m.form_state_space_matrices(v=3.0)
    against(m.form_reduced_canonical_matrices(), plain,
            'the model, second call')
    f = api.md.Meijaard2007WithFeedbackModel(api.mset(plain, rider))
    against(f.form_reduced_canonical_matrices(), plain,
            'the feedback model made from a plain set')
    f = api.fbmodel(p)
    against(f.form_reduced_canonical_matrices(), plain, 'the feedback model')
    equal(dict(m.parameter_set.parameters), plain, 'parameters of the model')
    equal(dict(f.parameter_set.parameters), p,
          'parameters of the feedback model')
    interesting(p, ctx)


@R.prop(lambda: st.tuples(gen.bicycle(), st.booleans()), quick=120,
        thorough=2000, rule='as above')
def bicycle_matches_mechanics(case, ctx):
    p, flywheel = case
    p = {k: v for k, v in p.items() if k != 'v'}
    b = dict(p)
    if flywheel:       # a flywheel is ignored in these results
        b.update({'mD': 1.2, 'IDxx': 0.03, 'IDyy': 0.06})
    bike = api.bicycle_from(ctx.tmp, b)
    against(bike.canonical(nominal=True), p, 'the bicycle')
    against(bike.canonical(nominal=True), p, 'the bicycle, second call')
    mats = bike.canonical()
    from uncertainties import unumpy
    against([unumpy.nominal_values(m) for m in mats], p,
            'the bicycle with uncertainties')
    equal(sorted(bike.parameters['Benchmark']), sorted(b),
          'names of the parameters afterwards')
    interesting(p, ctx)


@R.prop(lambda: st.tuples(gen.bicycle(), gen.fl(0.1, 5.0),
                          gen.fl(0.1, 20.0)), quick=300, thorough=5000,
        rule='as above')
def dimensional_scaling(case, ctx):
    """Changing the units of length and mass scales every entry as the
    torque and energy units require."""
    p, L, m = case
    q = dict(p)
    for k in p:
        if k[0] == 'I':
            q[k] = p[k]*m*L*L
        elif k[0] == 'm':
            q[k] = p[k]*m
        elif k in ('w', 'c', 'rR', 'rF', 'xB', 'xH', 'zB', 'zH'):
            q[k] = p[k]*L
    a = api.bk.benchmark_par_to_canonical(dict(p))
    b = api.bk.benchmark_par_to_canonical(dict(q))
    sc = ref.scale(q)
    for name, x, y, f in zip(NAMES, a, b, (m*L*L, m*L, m*L, m)):
        close(y, np.asarray(x, float)*f, name + ' in other units',
              rtol=1e-9, atol=1e-10*sc[name])
    interesting(p, ctx)
