"""C03: parameter overrides and sweeps."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import api, gen
from vlib.core import Registry, close, equal, expect, numeric, raises

R = Registry('C03')

KINDS = {
    'plain': (gen.bicycle, api.mmodel),
    'feedback': (gen.bicycle_feedback, api.fbmodel),
    'lean': (gen.riderlean, api.leanmodel),
}
BAD = ['V', 'speed', 'mb', 'IRzz', 'kTphi', 'x', 'lambda_', 'rr2', 'IFzz',
       'xR', 'yB']


ZERO = set('v c lam xB xH IBxz IHxz'.split()) | set(gen.GAINS) | set(
    'l1 l2 l3 l4 l5 l6 d4 ic31 ie31 ig31 c9 k9'.split())


def changed(base, key, f):
    """A value near the base value (factor f in [0.7, 1.4]), or exactly zero
    where that is meaningful."""
    if key in ZERO and int(f*1e6) % 4 == 0:
        return 0.0
    if key in ('v', 'g'):
        return base + 4.0*(f - 1.0)
    if base == 0.0:
        return (f - 1.0)*(30.0 if key.startswith('k') else 0.2)
    if key in ('d1', 'd2', 'd3', 'rr', 'rf'):
        # keep the steer axis tilt defined
        return base*(1.0 + 0.1*(f - 1.0))
    return base*f


@st.composite
def cases(draw, kind, arrays=None):
    p = draw(KINDS[kind][0]())
    n = draw(st.integers(1, 4))
    keys = draw(st.one_of(
        gen.subset(sorted(p), 1, 4),
        gen.subset(['v', 'g'], 1), gen.subset(sorted(p), 2, 12)))
    if kind == 'feedback' and draw(st.booleans()):
        keys = sorted(set(keys) | set(draw(gen.subset(gen.GAINS, 1, 8))))
    over = {}
    for k in keys:
        is_arr = draw(st.booleans()) if arrays is None else arrays
        if is_arr:
            over[k] = [changed(p[k], k, draw(gen.fl(0.7, 1.4)))
                       for _ in range(n)]
        else:
            over[k] = changed(p[k], k, draw(gen.fl(0.7, 1.4)))
    return {'p': p, 'over': over, 'n': n,
            'how': draw(st.sampled_from(api.HOW)),
            'bad': draw(gen.subset(BAD, 0, 2))}


def passed(case):
    return {k: api.as_given(x, case['how']) if isinstance(x, list) else x
            for k, x in case['over'].items()}


def ask(model, **over):
    """Everything the model answers for the given overrides."""
    out = {}
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        out['A'], out['B'] = model.form_state_space_matrices(**over)
    out['warned'] = [str(w.message) for w in log]
    if hasattr(model, 'form_reduced_canonical_matrices'):
        for k, x in zip(('M', 'C1', 'K0', 'K2'),
                        model.form_reduced_canonical_matrices(**over)):
            out[k] = x
    return out


def sweep(kind, case, ctx):
    p, n = case['p'], case['n']
    make = KINDS[kind][1]
    model = make(p)
    given_ = passed(case)
    before = api.snapshot(model.parameter_set.parameters)
    got = ask(model, **given_)
    equal(api.snapshot(model.parameter_set.parameters), before,
          'parameters of the set after the evaluation')
    for k, x in case['over'].items():
        if isinstance(x, list):
            equal([float(y) for y in given_[k]], x,
                  'sequence passed for ' + k)
    expect(not got['warned'], 'valid names were warned about: {}',
           got['warned'])
    any_arr = any(isinstance(x, list) for x in case['over'].values())
    cnt = n if any_arr else 1
    keys = [k for k in ('A', 'B', 'M', 'C1', 'K0', 'K2') if k in got]
    for i in range(cnt):
        q = dict(p)
        for k, x in case['over'].items():
            q[k] = float(x[i] if isinstance(x, list) else x)
        want = ask(make(q))
        for k in keys:
            g = numeric(got[k], k)
            w = numeric(want[k], k + ' of a single evaluation')
            if any_arr and k in 'AB':
                expect(g.shape == (n,) + w.shape,
                       '{} has shape {}, expected {}', k, g.shape,
                       (n,) + w.shape)
            if g.ndim == 3:
                expect(g.shape[0] == n, '{} has shape {}', k, g.shape)
                g = g[i]
            close(g, w, '%s for element %d of the sweep' % (k, i),
                  rtol=1e-10, atol=1e-12*np.abs(w).max())
    # a second, plain question is not affected by the first
    a, b = ask(model), ask(make(p))
    for k in keys:
        close(a[k], b[k], k + ' without overrides afterwards', rtol=1e-12,
              atol=1e-13*np.abs(numeric(b[k], k)).max())
    # unknown names: warned about by name, otherwise without effect
    if case['bad']:
        again = ask(model, **{b: 3.0 for b in case['bad']
                              if b not in p}, **given_)
        for b in case['bad']:
            if b not in p:
                expect(any(b in w for w in again['warned']),
                       'no warning names the unknown parameter {}: {}', b,
                       again['warned'])
        for k in keys:
            close(again[k], numeric(got[k], k),
                  k + ' with unknown names added', rtol=1e-12,
                  atol=1e-13*np.abs(numeric(got[k], k)).max())
        equal(api.snapshot(model.parameter_set.parameters), before,
              'parameters of the set after unknown names')
    arrs = [k for k, x in case['over'].items() if isinstance(x, list)]
    ctx.label('arrays=%d' % min(len(arrs), 3),
              'mixed' if arrs and len(arrs) < len(case['over']) else 'pure')
    ctx.nontrivial(bool(arrs) and n > 1)


@R.prop(lambda: cases('plain'), quick=500, thorough=8000, shards=2,
        rule='at least one sequence of more than one value')
def plain_model(case, ctx):
    sweep('plain', case, ctx)


@R.prop(lambda: cases('feedback'), quick=500, thorough=8000, shards=2,
        rule='at least one sequence of more than one value')
def feedback_model(case, ctx):
    sweep('feedback', case, ctx)


@R.prop(lambda: cases('lean'), quick=160, thorough=2400, shards=2,
        rule='at least one sequence of more than one value')
def lean_model(case, ctx):
    sweep('lean', case, ctx)


@st.composite
def unequal(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    p = draw(KINDS[kind][0]())
    keys = draw(gen.subset(sorted(p), 2, 5))
    lens = draw(st.lists(st.integers(1, 5), min_size=len(keys),
                         max_size=len(keys)).filter(
                             lambda x: len(set(x)) > 1))
    extra = [k for k in draw(gen.subset(sorted(p), 0, 2)) if k not in keys]
    return {'kind': kind, 'p': p, 'keys': keys, 'lens': lens,
            'extra': extra, 'how': draw(st.sampled_from(api.HOW))}


@R.prop(unequal, quick=300, thorough=4000,
        rule='every generated case has sequences of different lengths')
def unequal_lengths_refused(case, ctx):
    p = case['p']
    model = KINDS[case['kind']][1](p)
    over = {k: p[k] for k in case['extra']}
    for k, n in zip(case['keys'], case['lens']):
        over[k] = api.as_given([p[k]*(1 + 0.01*i) for i in range(n)],
                               case['how'])
    before = api.snapshot(model.parameter_set.parameters)
    raises(ValueError, lambda: model.form_state_space_matrices(**over),
           'state space with sequences of lengths %s' % case['lens'])
    raises(ValueError, lambda: model.calc_eigen(**over),
           'eigenvalues with sequences of lengths %s' % case['lens'])
    if case['kind'] != 'lean':
        raises(ValueError,
               lambda: model.form_reduced_canonical_matrices(**over),
               'canonical matrices with sequences of unequal length')
    equal(api.snapshot(model.parameter_set.parameters), before,
          'parameters of the set after the refusal')
    ctx.label(case['kind'])
    ctx.nontrivial()


@st.composite
def eig_cases(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    c = draw(cases(kind))
    c['kind'] = kind
    c['left'] = draw(st.booleans())
    return c


@R.prop(eig_cases, quick=200, thorough=3000,
        rule='at least one sequence of more than one value')
def eigen_sweep(case, ctx):
    """Sweeping the eigenvalues stacks the single answers."""
    p, n = case['p'], case['n']
    make = KINDS[case['kind']][1]
    model = make(p)
    evals, evecs = model.calc_eigen(left=case['left'], **passed(case))
    any_arr = any(isinstance(x, list) for x in case['over'].values())
    for i in range(n if any_arr else 1):
        q = dict(p)
        for k, x in case['over'].items():
            q[k] = float(x[i] if isinstance(x, list) else x)
        w, V = make(q).calc_eigen(left=case['left'])
        m = len(w)
        if any_arr:
            expect(np.shape(evals) == (n, m) and
                   np.shape(evecs) == (n, m, m),
                   'shapes {} {} for {} values', np.shape(evals),
                   np.shape(evecs), n)
        a = np.asarray(evals)[i] if any_arr else np.asarray(evals)
        A = make(q).form_state_space_matrices()[0]
        r = 1 + np.abs(w)
        # compare as multisets through the characteristic polynomial
        s = r.max()
        if m == 4:
            close(np.poly(a), np.poly(w),
                  'characteristic polynomial of element %d' % i,
                  kind='complex', rtol=1e-7, atol=1e-7*s**np.arange(m + 1))
        V2 = np.asarray(evecs)[i] if any_arr else np.asarray(evecs)
        At = A.T if case['left'] else A
        close(At @ V2, V2*a, 'A times eigenvectors of element %d' % i,
              kind='complex', rtol=0, atol=1e-8*(1 + np.abs(A).max()))
    equal(api.snapshot(model.parameter_set.parameters), dict(p),
          'parameters of the set after the evaluation')
    ctx.label(case['kind'])
    ctx.nontrivial(any_arr and n > 1)


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    p = draw(KINDS[kind][0]())
    keys = draw(gen.subset(sorted(p), 1, 3))
    # (questions that differ in one value only, some of them repeated)
    steps = draw(st.lists(st.tuples(
        st.sampled_from(['ask', 'ask', 'ask', 'sweep', 'set']),
        st.one_of(st.sampled_from(keys), st.sampled_from(sorted(p))),
        st.one_of(st.sampled_from([0.8, 1.0, 1.3]), gen.fl(0.7, 1.4))),
        min_size=2, max_size=7))
    return [kind, p, steps]


@R.prop(histories, quick=300, thorough=4000, shards=2,
        rule='the same parameter has several values')
def questions_in_a_row(case, ctx):
    """Answers depend on the values of the question and of the set only, not
    on earlier questions."""
    kind, p, steps = case
    make = KINDS[kind][1]
    model = make(p)
    own = dict(p)
    seen = {}
    for what, key, f in steps:
        x = changed(p[key], key, f)
        seen.setdefault(key, set()).add(x)
        q = dict(own)
        if what == 'set':
            model.parameter_set.parameters[key] = x
            own[key] = q[key] = x
            got = ask(model)
        elif what == 'sweep':
            q[key] = x
            got = ask(model, **{key: [own[key], x]})
            got = {k: v if k == 'warned' or np.ndim(v) == 2 else v[1]
                   for k, v in got.items()}
        else:
            q[key] = x
            got = ask(model, **{key: x})
        want = ask(make(q))
        for k in ('A', 'B', 'M', 'C1', 'K0', 'K2'):
            if k in want:
                w = numeric(want[k], k)
                close(got[k], w, '%s after %s of %s' % (k, what, key),
                      rtol=1e-10, atol=1e-12*np.abs(w).max())
        w, V = model.calc_eigen()
        A = numeric(ask(make(own))['A'], 'A')
        close(A @ V, V*w, 'A times eigenvectors', kind='complex', rtol=0,
              atol=1e-8*(1 + np.abs(A).max()))
    equal(api.snapshot(model.parameter_set.parameters), own,
          'parameters of the set at last')
    ctx.label(kind)
    ctx.nontrivial(any(len(v) > 1 for v in seen.values()))
