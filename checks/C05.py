"""C05: time simulation of the linear models."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

from vlib import api, gen
from vlib.core import Registry, Skip, close, equal, expect, numeric, raises

R = Registry('C05')

MODELS = {'plain': (gen.bicycle, api.mmodel, 4, 2),
          'feedback': (gen.bicycle_feedback, api.fbmodel, 4, 2),
          'lean': (gen.riderlean, api.leanmodel, 12, 3)}

# the integrators run with their default relative tolerance of 1e-3 per step
TOL = 0.008


@st.composite
def inputs(draw, m, n):
    if draw(st.integers(0, 3)) == 0:
        return None
    u = lambda k: [draw(nz_(20.0)) for _ in range(k)]   # noqa: E731
    return {'const': u(n), 'sin': u(n), 'omega': draw(gen.fl(0.2, 6.0)),
            'phase': draw(gen.fl(-3.0, 3.0)),
            'gain': [u(m) for _ in range(n)] if draw(st.booleans()) else None,
            'as': draw(st.sampled_from(['array', 'list', 'tuple']))}


def nz_(a):
    return gen.nz(-a, a, 1e-2)


@st.composite
def cases(draw, kinds=('plain', 'feedback', 'lean')):
    kind = draw(st.sampled_from(kinds))
    g, _, m, n = MODELS[kind]
    p = draw(g())
    over = {}
    if draw(st.booleans()):
        over['v'] = draw(gen.speed)
    if draw(st.integers(0, 3)) == 0:
        over['g'] = draw(gen.gravity)
    if draw(st.booleans()):
        for k in draw(gen.subset(sorted(p), 1, 4) if kind != 'lean' else
                      gen.subset(['rr', 'mc', 'me', 'mg', 'k9', 'c9',
                                  'id22', 'l1', 'ic11'], 1, 3)):
            if k not in over:
                over[k] = p[k]*(1.0 + (0.03 if k in ('rr', 'rf') else 0.2)
                                * draw(gen.fl(-1.0, 1.0)))
    whole = draw(st.integers(0, 5)) == 0
    x0 = [draw(st.integers(-1, 1)) if whole else draw(nz_(0.5))
          for _ in range(m)]
    return {'kind': kind, 'p': p, 'over': over,
            't0': draw(gen.nz(-2.0, 5.0, 1e-3)), 'dt': draw(gen.fl(0.01, 0.08)),
            'n': draw(st.integers(2, 14)),
            'uneven': draw(st.booleans()),
            'x0': x0,
            'u': draw(inputs(m, n)),
            'x0as': draw(st.sampled_from(api.HOW)),
            'tas': draw(st.sampled_from(api.HOW))}


def times_of(case):
    k = np.arange(case['n'])
    t = case['t0'] + case['dt']*k
    if case['uneven']:
        t = t + 0.3*case['dt']*np.sin(2.0*k)
    return t


def make_input(u):
    conv = {'array': np.array, 'list': list, 'tuple': tuple}[u['as']]
    seen = []

    def f(t, x):
        seen.append((float(t), np.array(x, float)))
        r = np.array(u['const']) + np.array(u['sin'])*np.sin(
            u['omega']*t + u['phase'])
        if u['gain'] is not None:
            r = r - np.array(u['gain']) @ np.asarray(x)
        return conv(r)
    return f, seen


def follows(A, B, u, t, x, what):
    """Every reported state is where the exact solution of the linear
    equations goes from the state before it."""
    m = len(A)
    # exact step of the autonomous augmented system [x, sin, cos, 1]
    F = np.zeros((m + 3, m + 3))
    F[:m, :m] = A
    if u is not None:
        if u['gain'] is not None:
            F[:m, :m] = A - B @ np.array(u['gain'])
        F[:m, m] = B @ np.array(u['sin'])
        F[:m, m + 2] = B @ np.array(u['const'])
        F[m, m + 1] = u['omega']
        F[m + 1, m] = -u['omega']
    for k in range(len(t) - 1):
        h = t[k + 1] - t[k]
        ph = 0.0 if u is None else u['omega']*t[k] + u['phase']
        z = np.concatenate([x[k], [np.sin(ph), np.cos(ph), 1.0]])
        E = expm(F*h)
        want = (E @ z)[:m]
        # the error control works per component, so an error of the allowed
        # relative size in any component can be carried into the others
        size = np.maximum(np.abs(x[k]), np.abs(x[k + 1]))
        grow = np.abs(E[:m, :m]) + expm(np.abs(F[:m, :m])*h) - np.eye(m)
        tol = TOL*(grow @ size) + TOL*np.abs(want) + 3e-4*(
            grow @ np.ones(m)) + TOL*np.abs(E[:m, m:] @ z[m:])
        close(x[k + 1], want, '%s: state at time %r (from the state at %r)'
              % (what, t[k + 1], t[k]), rtol=0, atol=tol)


@R.prop(cases, quick=350, thorough=6000, shards=4,
        rule='an input function is given and the speed is not zero')
def trajectories(case, ctx):
    _, make, m, n = MODELS[case['kind']]
    model = make(case['p'])
    t = times_of(case)
    x0 = api.as_given(case['x0'], case['x0as'])
    tt = api.as_given(t.tolist(), case['tas'])
    p = dict(case['p'], **case['over'])
    A, B = model.form_state_space_matrices(**case['over'])
    A, B = numeric(A, 'A'), numeric(B, 'B')
    loop = [A]
    if case['u'] is not None and case['u']['gain'] is not None:
        loop.append(A - B @ np.array(case['u']['gain']))
    if any(np.abs(a).max()*case['dt'] > 30 or
           np.linalg.norm(a, 2)*(t[-1] - t[0]) > 400 for a in loop):
        raise Skip
    if case['u'] is None:
        f, seen = None, []
    else:
        f, seen = make_input(case['u'])
    x, u = model.simulate(tt, x0, input_func=f, **case['over'])
    x = numeric(x, 'states', (len(t), m))
    u = numeric(u, 'inputs', (len(t), n))
    equal([float(a) for a in x0], case['x0'],
          'initial conditions given by the caller')
    equal([float(a) for a in tt], t.tolist(), 'times given by the caller')
    start = np.array(case['x0'], float)
    if case['kind'] == 'lean':
        start[9] = -p['v']/p['rr']     # rolling at the speed of the model
    close(x[0], start, 'state at the first time', rtol=1e-9, atol=1e-12)
    if np.abs(x).max() > 1e6:
        raise Skip
    follows(A, B, case['u'], t, x, 'simulation')
    if f is None:
        close(u, np.zeros((len(t), n)), 'inputs without an input function',
              rtol=0)
    else:
        g, _ = make_input(case['u'])
        for k in range(len(t)):
            close(u[k], np.asarray(g(t[k], x[k])),
                  'input reported at time %r' % t[k], rtol=1e-9, atol=1e-9)
    equal(dict(model.parameter_set.parameters), dict(case['p']),
          'parameters of the set after the simulation')
    ctx.label(case['kind'], 'input' if f else 'free',
              'feedback law' if case['u'] and case['u']['gain'] else 'open')
    ctx.nontrivial(f is not None and p['v'] != 0)


@R.prop(cases, quick=150, thorough=2500, shards=2,
        rule='non-zero speed')
def modes(case, ctx):
    _, make, m, n = MODELS[case['kind']]
    model = make(case['p'])
    t = times_of(case)
    A = numeric(model.form_state_space_matrices(**case['over'])[0], 'A')
    if np.linalg.norm(A, 2)*(t[-1] - t[0]) > 400:
        raise Skip
    res = numeric(model.simulate_modes(api.as_given(t.tolist(), case['tas']),
                                       **case['over']),
                  'mode simulations', (m, len(t), m))
    w, V = model.calc_eigen(**case['over'])
    for i in range(m):
        close(res[i, 0], np.real(V[:, i]), 'start of mode %d' % i,
              rtol=1e-9, atol=1e-12)
        follows(A, np.zeros((m, n)), None, t, res[i], 'mode %d' % i)
    ctx.label(case['kind'])
    ctx.nontrivial(dict(case['p'], **case['over'])['v'] != 0)


@R.prop(lambda: st.tuples(st.sampled_from(sorted(MODELS)).flatmap(
    lambda k: st.tuples(st.just(k), MODELS[k][0]())),
    st.lists(gen.speed, min_size=1, max_size=3), st.sampled_from(api.HOW)),
    quick=150, thorough=1500, rule='every generated case')
def sweeps_refused(case, ctx):
    (kind, p), vs, how = case
    _, make, m, n = MODELS[kind]
    model = make(p)
    t = np.linspace(0.0, 0.1, 3)
    v = api.as_given(vs, how)
    raises(ValueError, lambda: model.simulate(t, np.zeros(m), v=v),
           'simulating with a sequence of speeds')
    raises(ValueError, lambda: model.simulate_modes(t, v=v),
           'simulating modes with a sequence of speeds')
    ctx.label(kind)
    ctx.nontrivial()


@R.prop(lambda: cases(('feedback',)), quick=80, thorough=1500,
        rule='an input function is given')
def input_function_sees_states(case, ctx):
    """The input function is only ever evaluated inside the time span, and
    the driving input actually acts: with the same law built into the model
    as gains, the free motion is the same."""
    _, make, m, n = MODELS['plain']
    p = case['p']
    plain = {k: v for k, v in p.items() if not k.startswith('kT')}
    K = np.array([[p[k] for k in gen.GAINS[:4]],
                  [p[k] for k in gen.GAINS[4:]]])
    model = api.mmodel(plain)
    A, B = model.form_state_space_matrices(**case['over'])
    t = times_of(case)
    if np.linalg.norm(A - B @ K, 2)*(t[-1] - t[0]) > 400:
        raise Skip
    seen = []

    def law(ti, x):
        seen.append(ti)
        return -K @ x
    x, u = model.simulate(t, np.array(case['x0']), input_func=law,
                          **case['over'])
    expect(min(seen) >= t[0] - 1e-12, 'input asked before the start')
    if np.abs(x).max() > 1e6:
        raise Skip
    follows(numeric(A, 'A') - B @ K, numeric(B, 'B'), None, t,
            numeric(x, 'states', (len(t), 4)), 'feedback law')
    close(u, -(x @ K.T), 'reported inputs', rtol=1e-9, atol=1e-9)
    ctx.nontrivial(bool(np.any(K)))


@st.composite
def pulse_cases(draw):
    kind = draw(st.sampled_from(sorted(MODELS)))
    g, _, m, n = MODELS[kind]
    p = draw(g())
    length = draw(st.integers(4, 40))
    before = draw(st.integers(0, 80))
    val = [draw(nz_(20.0)) for _ in range(n)]
    if not any(val):
        val[draw(st.integers(0, n - 1))] = 3.0
    rest = draw(st.booleans())
    return {'kind': kind, 'p': p, 'over': {'v': draw(gen.speed)},
            't0': draw(gen.nz(-2.0, 5.0, 1e-3)),
            'dt': draw(gen.fl(0.004, 0.03)), 'uneven': draw(st.booleans()),
            'before': before, 'length': length,
            'n': before + length + draw(st.integers(2, 20)),
            'part': draw(gen.fl(0.0, 0.9)), 'val': val,
            'x0': [0.0]*m if rest else [draw(nz_(0.1)) for _ in range(m)],
            'as': draw(st.sampled_from(['array', 'list', 'tuple']))}


@R.prop(pulse_cases, quick=120, thorough=2500, shards=3,
        rule='the bicycle is at rest until the pulse')
def pulses(case, ctx):
    """A constant input that acts for at least four of the times only."""
    _, make, m, n = MODELS[case['kind']]
    model = make(case['p'])
    t = times_of(case)
    i = case['before']
    on = t[i] + case['part']*(t[i + 1] - t[i])
    off = t[i + case['length']]
    A, B = model.form_state_space_matrices(**case['over'])
    A, B = numeric(A, 'A'), numeric(B, 'B')
    if np.abs(A).max()*case['dt'] > 3 or np.linalg.norm(
            A, 2)*(t[-1] - t[0]) > 400:
        raise Skip
    conv = {'array': np.array, 'list': list, 'tuple': tuple}[case['as']]
    val = np.array(case['val'])

    def f(ti, x):
        return conv(val if on <= ti < off else 0.0*val)
    x, u = model.simulate(t, np.array(case['x0']), input_func=f,
                          **case['over'])
    x = numeric(x, 'states', (len(t), m))
    u = numeric(u, 'inputs', (len(t), n))
    if np.abs(x).max() > 1e6:
        raise Skip
    F = np.zeros((m + 1, m + 1))
    F[:m, :m] = A
    F[:m, m] = B @ val
    for k in range(len(t) - 1):
        close(u[k], np.asarray(f(t[k], None)), 'input reported at time %r'
              % t[k], rtol=0)
        h = t[k + 1] - t[k]
        # the part of the interval with the input, and the rest after it
        a, b = max(on, t[k]), min(off, t[k + 1])
        E = expm(A*h)
        want = E @ x[k]
        if b > a:
            push = expm(A*(t[k + 1] - b)) @ expm(F*(b - a))[:m, m]
            want = want + push
        # the times of the switches are met with the accuracy of a step
        full = np.abs(expm(F*h)[:m, m]) + expm(np.abs(F)*h)[:m, m]
        near = [abs(t[k] - s) < 2.5*h or abs(t[k + 1] - s) < 2.5*h
                for s in (on, off)]
        slack = 1.2 if any(near) else 0.3 if b > a else 0.0
        size = np.maximum(np.abs(x[k]), np.abs(x[k + 1]))
        grow = np.abs(E) + expm(np.abs(A)*h) - np.eye(m)
        tol = TOL*(grow @ size) + TOL*np.abs(want) + 3e-4*(
            grow @ np.ones(m)) + slack*full
        close(x[k + 1], want, 'pulse: state at time %r (from the state at %r)'
              % (t[k + 1], t[k]), rtol=0, atol=tol)
    rest = not any(case['x0'])
    ctx.label(case['kind'], 'at rest' if rest else 'moving')
    ctx.nontrivial(rest and case['kind'] != 'lean')
