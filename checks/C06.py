"""C06: full state feedback."""
import numpy as np
from hypothesis import strategies as st

from vlib import api, gen, ref
from vlib.core import Registry, close, equal, numeric

R = Registry('C06')


def gain_matrix(p):
    return np.array([[p['kT%s_%s' % (i, x)]
                      for x in ('phi', 'del', 'phid', 'deld')]
                     for i in ('phi', 'del')], dtype=float)


def closed_loop(A, B, p, who):
    """A must be the plain bicycle's matrix less B K."""
    A = numeric(A, 'A of ' + who, (4, 4))
    B = numeric(B, 'B of ' + who, (4, 2))
    mats = ref.meijaard(p)
    M = mats[0]
    A0, B0 = ref.state_matrices(*mats, p['v'], p['g'])
    k = 1e-9 + 1e-13*np.linalg.cond(M)
    sc = ref.scale(p)
    # residual form, rows of torques
    K = gain_matrix(p)
    s = (abs(p['g'])*sc['K0'] + p['v']**2*sc['K2'] +
         abs(p['v'])*sc['C1'] + np.abs(K).max())
    close(B[:2], np.zeros((2, 2)), 'upper half of B of ' + who, rtol=0)
    close(A[:2], np.eye(4)[2:], 'kinematic rows of A of ' + who, rtol=0)
    close(M @ B[2:], np.eye(2), 'M times B of ' + who, rtol=0,
          atol=k*(np.abs(M) @ np.abs(B[2:])))
    close(M @ A[2:], M @ A0[2:] - K, 'M times A of ' + who, rtol=0,
          atol=k*(np.abs(M) @ (np.abs(A[2:]) + np.abs(A0[2:]))) + 1e-11*s)


@st.composite
def cases(draw):
    p = draw(gen.bicycle_feedback())
    n = draw(st.integers(1, 4))
    keys = draw(st.one_of(
        st.just([]), gen.subset(gen.GAINS, 1), st.just(gen.GAINS),
        gen.subset(['v', 'g', 'w', 'IBxx', 'zB', 'c'], 1).flatmap(
            lambda a: gen.subset(gen.GAINS, 0, 4).map(lambda b: b + a))))
    over = {}
    whole = draw(st.booleans())
    every = draw(st.booleans())
    for k in keys:
        isarr = every or draw(st.booleans())

        def val():
            if k in gen.GAINS:
                return draw(gen.nz(-200, 200, 1e-3))
            if k == 'v':
                return draw(gen.speed)
            return p[k]*draw(gen.fl(0.8, 1.2))
        if isarr:
            over[k] = [val() for _ in range(n)]
            if whole and k in gen.GAINS:      # sequences starting with an int
                over[k][0] = int(over[k][0])
        else:
            over[k] = val()
    return {'p': p, 'n': n, 'over': over,
            'how': draw(st.sampled_from(api.HOW)), 'whole': whole}


def spread(case):
    """The single parameter sets the overrides stand for."""
    arr = [k for k, x in case['over'].items() if isinstance(x, list)]
    out = []
    for i in range(case['n'] if arr else 1):
        q = dict(case['p'])
        for k, x in case['over'].items():
            q[k] = float(x[i] if k in arr else x)
        out.append(q)
    return arr, out


@R.prop(cases, quick=800, thorough=14000, shards=2,
        rule='some gain is swept or at least two gains are non-zero')
def loop_closed(case, ctx):
    m = api.fbmodel(case['p'])
    over = {k: (list(x) if case['whole'] else api.as_given(x, case['how']))
            if isinstance(x, list) else x for k, x in case['over'].items()}
    A, B = m.form_state_space_matrices(**over)
    arr, sets = spread(case)
    for i, q in enumerate(sets):
        closed_loop(np.asarray(A)[i] if arr else A,
                    np.asarray(B)[i] if arr else B, q, 'element %d' % i)
    closed_loop(*m.form_state_space_matrices(), case['p'],
                'the model without overrides')
    ctx.label('swept gains' if set(arr) & set(gen.GAINS) else 'no swept gain',
              'swept plant' if set(arr) - set(gen.GAINS) else 'fixed plant')
    ctx.nontrivial(bool(set(arr) & set(gen.GAINS)) or
                   np.count_nonzero(gain_matrix(sets[0])) > 1)


@R.prop(lambda: st.tuples(gen.bicycle(), st.lists(gen.speed, max_size=4),
                          st.sampled_from(['none', 'set'])),
        quick=300, thorough=5000, rule='sweep over at least one speed')
def without_gains_plain(case, ctx):
    """All gains zero: the same bicycle as the plain model."""
    p, speeds, how = case
    if how == 'none':       # made from a plain set
        m = api.md.Meijaard2007WithFeedbackModel(api.mset(p))
    else:
        m = api.fbmodel(dict(p, **{k: 0.0 for k in gen.GAINS}))
    plain = api.mmodel(p)
    over = [{}] + [{'v': v} for v in speeds] + (
        [{'v': speeds}] if speeds else [])
    for o in over:
        a, b = m.form_state_space_matrices(**o)
        c, d = plain.form_state_space_matrices(**o)
        close(a, c, 'A with zero gains', rtol=1e-12)
        close(b, d, 'B with zero gains', rtol=1e-12)
        e1, e2 = m.calc_eigen(**o), plain.calc_eigen(**o)
        for x, y in zip(np.atleast_2d(e1[0]), np.atleast_2d(e2[0])):
            r = 1 + np.abs(y).max()
            close(np.poly(x), np.poly(y), 'characteristic polynomial with '
                  'zero gains', kind='complex', rtol=1e-7,
                  atol=1e-7*r**np.arange(5))
    for x, y in zip(m.form_reduced_canonical_matrices(),
                    plain.form_reduced_canonical_matrices()):
        close(x, y, 'canonical matrices with zero gains', rtol=1e-12)
    equal({k: v for k, v in m.parameter_set.parameters.items()
           if k in gen.GAINS}, {k: 0.0 for k in gen.GAINS}, 'gains')
    ctx.label(how)
    ctx.nontrivial(bool(speeds))
