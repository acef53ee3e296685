"""C04: eigenvalues, eigenvectors and the ordering of modes."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import api, gen
from vlib.core import Registry, close, equal, expect, numeric

R = Registry('C04')
QUICK = 2.5


def pairs_ok(A, w, V, what):
    m = len(A)
    w = numeric(w, what + ' eigenvalues', (m,), kind='complex')
    V = numeric(V, what + ' eigenvectors', (m, m), kind='complex')
    close(A @ V, V*w, what + ': matrix times eigenvectors', kind='complex',
          rtol=0, atol=1e-9*(1 + np.abs(A).max()))
    close(np.linalg.norm(V, axis=0), np.ones(m), what + ': vector lengths',
          rtol=1e-6)
    # real matrix: complex eigenvalues come in conjugate pairs
    s = np.abs(w).max() + 1
    close(np.sort(w.imag), np.sort(-w.imag), what + ': conjugate pairs',
          rtol=0, atol=1e-7*s)
    if m == 4:
        close(np.poly(w), np.poly(A), what + ': characteristic polynomial',
              kind='complex', rtol=1e-7, atol=1e-7*s**np.arange(m + 1))
    close(w.sum(), np.trace(A), what + ': sum of eigenvalues',
          kind='complex', rtol=0, atol=1e-8*s*m)


MODELS = {'plain': (gen.bicycle, api.mmodel),
          'feedback': (gen.bicycle_feedback, api.fbmodel),
          'lean': (gen.riderlean, api.leanmodel)}


@R.prop(lambda: st.sampled_from(sorted(MODELS)).flatmap(
    lambda k: st.tuples(st.just(k), MODELS[k][0](),
                        st.lists(gen.speed, max_size=3))),
        quick=500, thorough=8000, shards=2,
        rule='sweep over at least two speeds')
def eigenpairs(case, ctx):
    kind, p, speeds = case
    m = MODELS[kind][1](p)
    for left in (False, True):
        def mat(**kw):
            A = np.asarray(m.form_state_space_matrices(**kw)[0], float)
            return A.T if left else A
        w, V = m.calc_eigen(left=left)
        pairs_ok(mat(), w, V, 'left' if left else 'right')
        if speeds:
            ws, Vs = m.calc_eigen(left=left, v=speeds)
            n = len(mat())
            expect(np.shape(ws) == (len(speeds), n) and
                   np.shape(Vs) == (len(speeds), n, n),
                   'shapes {} and {}', np.shape(ws), np.shape(Vs))
            for v, a, b in zip(speeds, ws, Vs):
                pairs_ok(mat(v=v), a, b, 'swept')
    w, _ = m.calc_eigen(**({'v': speeds[0]} if speeds else {}))
    ctx.label(kind, 'n=%d' % len(speeds))
    ctx.nontrivial(len(speeds) > 1)


# -- ordering -------------------------------------------------------------

def tagged(vals):
    """Eigenvectors that carry the identity of their eigenvalue."""
    n, m = vals.shape
    vecs = np.zeros((n, m, m), dtype=complex)
    for i in range(n):
        for k in range(m):
            vecs[i, :, k] = [vals[i, k], i, k, 1.0] + [0.0]*(m - 4) \
                if m >= 4 else [vals[i, k], i + 10*k, 1.0][:m]
    return vecs


def permuted(vals, vecs, ovals, ovecs, what):
    """Each output row is a rearrangement of the input row in which every
    eigenvalue still has its own eigenvector."""
    expect(ovals.shape == vals.shape and ovecs.shape == vecs.shape,
           '{}: shapes {} {}', what, ovals.shape, ovecs.shape)
    for i in range(len(vals)):
        left = list(range(vals.shape[1]))
        for j in range(vals.shape[1]):
            hit = [k for k in left if ovals[i, j] == vals[i, k] and
                   np.array_equal(ovecs[i, :, j], vecs[i, :, k])]
            expect(hit, '{}: entry {} of row {} ({}) is not one of the '
                   'remaining eigenpairs {}', what, j, i, ovals[i, j],
                   vals[i, left])
            left.remove(hit[0])
    expect(np.array_equal(ovals[0], vals[0]) and
           np.array_equal(ovecs[0], vecs[0]),
           '{}: the first row was reordered', what)


def trackable(a, b):
    """The assignment from row a to row b if every value of a has its own
    nearest value in b by a clear margin, else None."""
    d = np.abs(a[:, None] - b[None, :])
    idx = d.argmin(axis=1)
    if len(set(idx)) != len(idx):
        return None
    srt = np.sort(d, axis=1)
    if d.shape[1] > 1 and np.any(srt[:, 1] - srt[:, 0] < 1e-9):
        return None
    return idx


def followed(vals, ovals, what):
    """Where neighbouring rows are unambiguous the order follows them."""
    n = 0
    for i in range(len(vals) - 1):
        idx = trackable(ovals[i], vals[i + 1])
        if idx is not None:
            n += 1
            expect(np.array_equal(ovals[i + 1], vals[i + 1][idx]),
                   '{}: row {} does not continue row {}: {} after {}',
                   what, i + 1, i, ovals[i + 1], ovals[i])
    return n


def sort_both(vals, vecs, what):
    a, b = vals.copy(), vecs.copy()
    ov, oV = api.bk.sort_eigenmodes(vals, vecs)
    expect(np.array_equal(a, vals) and np.array_equal(b, vecs),
           '{}: the input was changed', what)
    permuted(vals, vecs, np.asarray(ov), np.asarray(oV), what)
    n = followed(vals, np.asarray(ov), what)
    if vals.shape[1] == 4:
        weave, cap, cas = api.bk.sort_modes(vals, vecs)
        expect(np.array_equal(a, vals) and np.array_equal(b, vecs),
               '{}: the input was changed', what)
        k = len(vals)
        expect(np.shape(weave['evals']) == (k, 2) and
               np.shape(cap['evals']) == (k,) and
               np.shape(cas['evals']) == (k,), '{}: mode shapes', what)
        mv = np.column_stack([cas['evals'], cap['evals'], weave['evals']])
        mV = np.concatenate([np.reshape(cas['evecs'], (k, 4, 1)),
                             np.reshape(cap['evecs'], (k, 4, 1)),
                             np.reshape(weave['evecs'], (k, 4, 2))], axis=2)
        permuted(vals, vecs, mv, mV, what + ', named modes')
        followed(vals, mv, what + ', named modes')
    return n


@st.composite
def sequences(draw):
    m = draw(st.sampled_from([2, 3, 4, 4, 4, 6, 12]))
    n = draw(st.integers(1, 5))
    style = draw(st.sampled_from(['any', 'few', 'smooth']))
    if style == 'few':
        grid = st.sampled_from([-2.0, -1.0, 0.0, 1.0, 1.5])
        num = st.tuples(grid, st.sampled_from([0.0, 1.0, -1.0]))
        rows = [[draw(num) for _ in range(m)] for _ in range(n)]
    elif style == 'any':
        top = 10.0**draw(st.integers(-2, 6))
        num = st.tuples(gen.fl(-top, top), gen.fl(-top, top))
        rows = [[draw(num) for _ in range(m)] for _ in range(n)]
    else:
        base = [(3.0*k + draw(gen.fl(-0.4, 0.4)), draw(gen.fl(-5, 5)))
                for k in range(m)]
        rows = [base]
        for _ in range(n - 1):
            base = [(x + draw(gen.fl(-0.15, 0.15)),
                     y + draw(gen.fl(-0.5, 0.5))) for x, y in base]
            rows.append(draw(st.permutations(base)))
    return [[list(z) for z in r] for r in rows]


@R.prop(sequences, quick=1200, thorough=20000, shards=2,
        rule='at least two rows of at least three values',
        examples=[[[[1.0, 0], [2.0, 0], [3.0, 0], [4.0, 0]],
                   [[9.0, 0], [10.0, 0], [11.0, 0], [1.0, 0]],
                   [[9.0, 0], [10.0, 0], [11.0, 0], [1.0, 0]]]])
def ordering_any_sequence(case, ctx):
    vals = np.array([[complex(*z) for z in r] for r in case])
    n = sort_both(vals, tagged(vals), 'sequence')
    ctx.label('m=%d' % vals.shape[1], 'tracked' if n else 'ambiguous')
    ctx.nontrivial(len(vals) > 1 and vals.shape[1] > 2)


@R.prop(lambda: st.tuples(gen.bicycle(v=st.just(0.0)), gen.fl(0.0, 3.0),
                          gen.fl(0.05, 3.0), st.integers(2, 25)),
        quick=250, thorough=4000, rule='every generated sweep')
def ordering_bicycle_sweep(case, ctx):
    p, v0, dv, n = case
    m = api.mmodel(p)
    w, V = m.calc_eigen(v=v0 + dv*np.arange(n))
    k = sort_both(np.asarray(w), np.asarray(V), 'speed sweep')
    ctx.label('all tracked' if k == n - 1 else 'some ambiguous')
    ctx.nontrivial()


@R.prop(lambda: st.tuples(gen.bicycle_feedback(), st.booleans(),
                          st.lists(gen.fl(0.1, 12.0), max_size=4,
                                   unique=True), st.booleans()),
        quick=250, thorough=4000, rule='a sweep, or obtuse angles')
def modal_controllability(case, ctx):
    """The angles between left eigenvectors and columns of the input
    matrix (the method is private: if it is gone there is nothing to check)."""
    p, closed, speeds, acute = case
    m = api.fbmodel(p) if closed else api.mmodel(
        {k: v for k, v in p.items() if not k.startswith('k')})
    f = getattr(m, '_calc_modal_controllability', None)
    if f is None:
        return
    over = {'v': np.array(speeds)} if speeds else {}
    w, Q = m.calc_eigen(left=True, **over)
    _, B = m.form_state_space_matrices(**over)
    got = np.asarray(f(acute=acute, **over))
    equal(got.shape, (len(speeds), 4, 2) if speeds else (4, 2), 'shape')
    rows = [(got, Q, B)]
    if speeds:
        Q = api.bk.sort_eigenmodes(w, Q)[1]
        rows = list(zip(got, Q, B))
    for g, q, b in rows:
        want = np.empty((4, 2))
        for i in range(4):
            for j in range(2):
                c = (q[:, i].real @ b[:, j])/math.sqrt(
                    math.fsum(np.abs(q[:, i])**2))/math.sqrt(
                        math.fsum(b[:, j]**2))
                c = min(1.0, max(-1.0, c))
                want[i, j] = math.acos(abs(c) if acute else c)
        if not speeds:
            # (whatever order a single set comes in)
            g, want = sorted(g.tolist()), sorted(want.tolist())
        close(g, want, 'angles', rtol=0, atol=1e-6)
    ctx.label('acute' if acute else 'any angle', 'closed' if closed else
              'open')
    ctx.nontrivial(bool(speeds) or not acute)
