"""C02: state space form of the linearized equations at any speed."""
import numpy as np
from hypothesis import strategies as st
from uncertainties import unumpy

from vlib import api, gen, ref
from vlib.core import Registry, close, equal, expect, numeric

R = Registry('C02')


def check_ab(A, B, p, v, g, who, mats=None):
    """x' = A x + B u must be M q'' + v C1 q' + (g K0 + v^2 K2) q = f."""
    M, C1, K0, K2 = mats or ref.meijaard(p)
    A = numeric(A, 'A of ' + who, (4, 4))
    B = numeric(B, 'B of ' + who, (4, 2))
    close(A[:2], np.hstack([np.zeros((2, 2)), np.eye(2)]),
          'kinematic rows of A of ' + who, rtol=0)
    close(B[:2], np.zeros((2, 2)), 'kinematic rows of B of ' + who, rtol=0)
    # residual form: no matrix inverse in the oracle
    aM = np.abs(M)
    s = ref.scale(p) if mats is None else dict(
        C1=np.abs(C1).max(), K0=np.abs(K0).max(), K2=np.abs(K2).max())
    # rounding of an explicit inverse grows with the condition number
    k = np.linalg.cond(M)
    tol = 1e-13*k + 1e-11
    K = g*K0 + v*v*K2
    ks = abs(g)*s['K0'] + v*v*s['K2']
    close(M @ A[2:, :2], -K, 'stiffness part of ' + who, rtol=1e-9,
          atol=tol*(aM @ np.abs(A[2:, :2])) + 1e-11*ks)
    close(M @ A[2:, 2:], -v*C1, 'damping part of ' + who, rtol=1e-9,
          atol=tol*(aM @ np.abs(A[2:, 2:])) + 1e-11*abs(v)*s['C1'])
    close(M @ B[2:], np.eye(2), 'input part of ' + who, rtol=1e-9,
          atol=tol*(aM @ np.abs(B[2:])))


def note(p, v, g, ctx):
    ctx.label('v=0' if v == 0 else 'v<0' if v < 0 else 'v>0')
    ctx.nontrivial(v != 0 and g != 0 and p['lam'] != 0)


@R.prop(lambda: st.tuples(gen.bicycle(), gen.speed, gen.gravity,
                          st.sampled_from(api.SHOW)),
        quick=900, thorough=16000, shards=2,
        rule='speed and gravity non-zero, tilted steer axis')
def model_state_space(case, ctx):
    p, v, g, how = case
    m = api.mmodel(p)
    check_ab(*m.form_state_space_matrices(), p, p['v'], p['g'], 'the model')
    vv, gg = api.as_scalar(v, how), api.as_scalar(g, how)
    check_ab(*m.form_state_space_matrices(v=vv, g=gg), p, v, g,
             'the model at another speed and gravity')
    check_ab(*m.form_state_space_matrices(v=vv), p, v, p['g'],
             'the model at another speed')
    check_ab(*m.form_state_space_matrices(), p, p['v'], p['g'],
             'the model, asked again')
    note(p, v, g, ctx)


@R.prop(lambda: st.tuples(
    st.lists(gen.fl(-50, 50), min_size=16, max_size=16), gen.fl(-8, 8),
    gen.fl(0, 15), st.sampled_from(api.SHOW)), quick=400, thorough=6000,
    rule='speed and gravity non-zero')
def function_state_space(case, ctx):
    """For any canonical matrices, not only those of a bicycle."""
    n, v, g, how = case
    n = np.array(n).reshape(4, 2, 2)
    M = n[0] @ n[0].T + 0.5*np.eye(2) + np.array([[0, 0.3], [-0.2, 0]])
    mats = (M, n[1], n[2], n[3])
    if abs(np.linalg.det(M)) < 1e-3:
        M = M + np.eye(2)
        mats = (M,) + mats[1:]
    given_ = [x.copy() for x in mats]
    A, B = api.bk.ab_matrix(*given_, api.as_scalar(v, how),
                            api.as_scalar(g, how))
    check_ab(A, B, None, v, g, 'the function', mats)
    for a, b in zip(given_, mats):
        equal(a.tolist(), b.tolist(), 'matrices given to the function')
    ctx.nontrivial(v != 0 and g != 0)


@R.prop(lambda: st.tuples(gen.bicycle(), st.lists(gen.speed, min_size=1,
                                                   max_size=4),
                          st.sampled_from(api.SHOW),
                          st.sampled_from(api.HOW)),
        quick=150, thorough=2500, rule='some non-zero speed, tilted axis')
def bicycle_state_space(case, ctx):
    p, speeds, how, ahow = case
    p = {k: x for k, x in p.items() if k != 'v'}
    bike = api.bicycle_from(ctx.tmp, p)
    m = api.mmodel(dict(p, v=1.0))
    for v in speeds:
        A, B = bike.state_space(api.as_scalar(v, how), nominal=True)
        check_ab(A, B, p, v, p['g'], 'the bicycle')
        A2, B2 = bike.state_space(api.as_scalar(v, how))
        close(unumpy.nominal_values(A2), A, 'A with uncertainties')
        close(unumpy.nominal_values(B2), B, 'B with uncertainties')
        A3, B3 = m.form_state_space_matrices(v=v)
        close(A3, A, 'A of the model', atol=1e-9*(1 + np.abs(A).max()))
    evals, evecs = bike.eig(api.as_given(speeds, ahow))
    check_eig(p, speeds, evals, evecs)
    evals, evecs = bike.eig(api.as_scalar(speeds[0], how))
    check_eig(p, speeds[:1], evals, evecs)
    note(p, max(speeds, key=abs), p['g'], ctx)


def check_eig(p, speeds, evals, evecs):
    evals = numeric(evals, 'eigenvalues', (len(speeds), 4), kind='complex')
    evecs = numeric(evecs, 'eigenvectors', (len(speeds), 4, 4),
                    kind='complex')
    mats = ref.meijaard(p)
    for v, w, V in zip(speeds, evals, evecs):
        A = ref.state_matrices(*mats, v, p['g'])[0]
        s = np.abs(A).max() + 1
        close(A @ V, V*w, 'A times the eigenvectors at speed %r' % v,
              kind='complex', rtol=0, atol=1e-8*s)
        close(np.linalg.norm(V, axis=0), np.ones(4), 'eigenvector lengths',
              rtol=1e-6)
        # every eigenvalue once: same characteristic polynomial
        c1, c2 = np.poly(w), np.poly(A)
        r = np.abs(w).max() + 1
        close(c1, c2, 'characteristic polynomial at speed %r' % v,
              kind='complex', rtol=1e-7, atol=1e-7*r**np.arange(5))


@R.prop(lambda: st.tuples(gen.bicycle(), gen.fl(0.0, 12.0)), quick=400,
        thorough=6000, rule='non-zero speed, tilted axis')
def reversing_mirrors(case, ctx):
    """Time reversal: the matrices at -v describe the motion run backwards."""
    p, v = case
    m = api.mmodel(p)
    A, B = m.form_state_space_matrices(v=v)
    A2, B2 = m.form_state_space_matrices(v=-v)
    S = np.diag([1., 1., -1., -1.])
    sc = np.abs(np.asarray(A)).max()
    close(A2, -(S @ A @ S), 'A at the reversed speed', rtol=1e-10,
          atol=1e-12*sc)
    close(B2, B, 'B at the reversed speed', rtol=1e-12)
    ctx.nontrivial(v != 0 and p['lam'] != 0)
