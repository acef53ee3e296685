"""C26: the bicycles that come with the package are real and agree."""
import math
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vlib import api, bootstrap, gen, measure, ref
from vlib.core import Registry, close, expect
from bicycleparameters import parameter_dicts as pd
from bicycleparameters.main import Bicycle
from checks.C07 import rigid
from checks.C14 import SHIPPED

R = Registry('C26')
QUICK = 2
BIKES = os.path.join(bootstrap.REPO, 'data', 'bicycles')
APP = os.path.join(bootstrap.REPO, 'bicycleparameters', 'app-data',
                   'bicycles')
RIDERS = os.path.join(bootstrap.REPO, 'data', 'riders')
# (has parameters in data/, is in the menu of the app)
STORED = ['Balanceassistv1', 'Browser', 'Browserins', 'Crescendo', 'Fisher',
          'Pista', 'Rigid', 'Yellow', 'Yellowrev']
MENU = ['Browser', 'Browserins', 'Crescendo', 'Fisher', 'Pista', 'Rigid',
        'Yellow', 'Yellowrev']
# meijaard2007_browser_jason has the roll inertias of its wheels exchanged;
# documented results depend on the values (a finding, not repaired)
EXCHANGED = {'IFxx': 0.0904106601579, 'IRxx': 0.0883819364527}


def nominal(x):
    return float(getattr(x, 'nominal_value', x))


def plain(par):
    return {k: nominal(v) for k, v in par.items()}


def exchanged():
    p = pd.meijaard2007_browser_jason
    return all(p.get(k) == v for k, v in EXCHANGED.items())


@R.probe('exchanged_wheels')
def _probe():
    return exchanged()


def browser_jason():
    p = plain(pd.meijaard2007_browser_jason)
    if exchanged():
        p['IFxx'], p['IRxx'] = p['IRxx'], p['IFxx']
    return p


def measured(name):
    """From the measurements alone, by an independent evaluation."""
    mp = {}
    for line in SHIPPED[name]:
        line = line.split('#')[0]
        if '=' in line:
            k, v = line.split('=')
            v = [float(q.split('+/-')[0]) for q in v.split(',')]
            mp[k.strip()] = math.fsum(v)/len(v)
    return measure.evaluate(mp)


def load(ctx, name, root, **kw):
    """(from a copy: loading may write)"""
    dst = os.path.join(ctx.tmp, 'bicycles', name)
    shutil.copytree(os.path.join(root, name), dst)
    return Bicycle(name, pathToData=ctx.tmp, **kw)


def add(one, two):
    """Benchmark parameters of the frame with the rider added."""
    out = dict(one)
    m = one['mB'] + two['mB']
    c = {}
    for ax in 'xz':
        c[ax] = out[ax + 'B'] = (one['mB']*one[ax + 'B'] +
                                 two['mB']*two[ax + 'B'])/m
    out['mB'] = m
    for k in ('xx', 'yy', 'zz', 'xz'):
        s = 0.0
        for q in (one, two):
            dx, dz = q['xB'] - c['x'], q['zB'] - c['z']
            s += q['IB' + k] + q['mB']*{'xx': dz*dz, 'zz': dx*dx,
                                        'yy': dx*dx + dz*dz,
                                        'xz': -dx*dz}[k]
        out['IB' + k] = s
    return out


MEIJAARD = ['IBxx', 'IBxz', 'IByy', 'IBzz', 'IFxx', 'IFyy', 'IHxx', 'IHxz',
            'IHyy', 'IHzz', 'IRxx', 'IRyy', 'c', 'lam', 'mB', 'mF', 'mH',
            'mR', 'rF', 'rR', 'w', 'xB', 'xH', 'zB', 'zH']


def same(got, want, tol, what):
    for k in MEIJAARD:
        # (the human was another version, or fitted by hand)
        t = min(tol, 1e-6) if what == 'moore_2019' and k[1:2] != 'B' else tol
        close(nominal(got[k]), nominal(want[k]), what + ': ' + k, rtol=t,
              atol=0.02*t)


def lean_legs(ctx):
    """The lower part of the leaning rider is the set with the legs."""
    p = plain(pd.mooreriderlean2012_browser_jason)
    p.update(mg=1e-13, ig11=0.0, ig22=0.0, ig33=0.0, ig31=0.0)
    return plain(pd.meijaard2007_browser_jasonlegs), rigid(p), 1e-8


def lean_whole(ctx):
    return (browser_jason(),
            rigid(plain(pd.mooreriderlean2012_browser_jason)), 3e-4)


def legs_wheels(ctx):
    """Same bicycle, another part of the rider."""
    one = browser_jason()
    two = plain(pd.meijaard2007_browser_jasonlegs)
    for k in one:
        if k[1:2] == 'B':
            two[k] = one[k]
    return one, two, 1e-11


def stored_rider(ctx):
    rider = plain(io_load(os.path.join(RIDERS, 'Jason', 'Parameters',
                                       'JasonBrowserBenchmark.txt')))
    return browser_jason(), add(measured('Browser'), rider), 3e-3


def io_load(path):
    from bicycleparameters.io import load_parameter_text_file
    return load_parameter_text_file(path)


def moore_2019(ctx):
    """The set in principal axes: Jason, as measured, on the Browser."""
    p = dict(pd.moore2019_browser_jason)
    s = api.ps.Moore2019ParameterSet(p).to_parameterization('Meijaard2007')
    shutil.copytree(os.path.join(RIDERS, 'Jason', 'RawData'),
                    os.path.join(ctx.tmp, 'riders', 'Jason', 'RawData'))
    bike = load(ctx, 'Browser', BIKES)
    bike.add_rider('Jason', reCalc=True)
    return plain(s.parameters), plain(bike.parameters['Benchmark']), 6e-3


RELATIONS = [lean_legs, lean_whole, legs_wheels, stored_rider, moore_2019]


@R.prop(lambda: st.tuples(st.sampled_from([f.__name__ for f in RELATIONS]),
                          gen.fl(-10.0, 10.0), gen.fl(1.0, 20.0)),
        quick=150, thorough=1500, rule='moving')
def dictionaries(case, ctx):
    """Sets of the same bicycle and rider, in different parameterizations
    and from different sources, are the same and move the same."""
    name, v, g = case
    one, two, tol = globals()[name](ctx)
    same(one, two, tol, name)
    A = [ref.state_matrices(*ref.meijaard(
        {k: nominal(q[k]) for k in MEIJAARD}), v, g) for q in (one, two)]
    got = api.mmodel(dict({k: nominal(one[k]) for k in MEIJAARD}, v=v, g=g))
    close(got.form_state_space_matrices()[0], A[1][0], 'state matrix of ' +
          name, rtol=50*tol, atol=50*tol*np.abs(A[1][0]).max() + 1e-9)
    ctx.label(name)
    ctx.nontrivial(v != 0)


@R.prop(lambda: st.one_of(
    st.tuples(st.just('stored'), st.sampled_from(STORED)),
    st.tuples(st.just('raw'), st.sampled_from(sorted(SHIPPED))),
    st.tuples(st.just('app'), st.sampled_from(MENU))).flatmap(
        lambda c: st.tuples(st.just(c), st.lists(
            gen.fl(0.0, 10.0), min_size=1, max_size=4))),
        quick=250, thorough=2500, rule='loaded from stored parameters')
def bicycles(case, ctx):
    """Bicycles of the package are those that were measured."""
    (route, name), speeds = case
    want = measured(name)
    if route == 'app':
        bike = load(ctx, name, APP)
    else:
        bike = load(ctx, name, BIKES, forceRawCalc=route == 'raw')
    par = bike.parameters['Benchmark']
    for k, v in want.items():
        if route == 'stored' and k in ('xcl', 'zcl'):
            continue
        rtol, atol = 1e-8, 1e-8
        if name == 'Balanceassistv1' and route == 'stored':
            rtol, atol = 0.01, 1e-4
        if route == 'app':
            if name == 'Rigid' and k == 'mG':
                continue        # (weighed again)
            # written with few digits
            rtol, atol = 0.0, 0.1 if k[0] == 'm' else 2.5e-3
            if k[0] == 'I':
                atol = 1e-3 + 0.005*abs(v)
            if k not in par and k in ('xcl', 'zcl'):
                continue
        close(nominal(par[k]), v, '%s, %s: %s' % (name, route, k),
              rtol=rtol, atol=atol)
    # and can be used
    w, _ = bike.eig(speeds)
    q = plain(par)
    close(w.sum(axis=-1).real, [np.trace(ref.state_matrices(
        *ref.meijaard(q), v, q['g'])[0]) for v in speeds],
        'sum of the eigenvalues', rtol=1e-8, atol=1e-8)
    ctx.label(route, name)
    ctx.nontrivial(route != 'raw')


DICTS = ['meijaard2007_browser_jason', 'meijaard2007_browser_jasonlegs',
         'moore2019_browser_jason', 'mooreriderlean2012_browser_jason']


@R.prop(lambda: st.tuples(st.sampled_from(
    DICTS + ['data/' + k for k in STORED + ['Silver', 'Benchmark']] +
    ['app/' + k for k in MENU + ['Silver', 'Benchmark']]), 
    st.tuples(gen.fl(-1.0, 1.0), gen.fl(-math.pi, math.pi))),
        quick=300, thorough=4000, rule='every direction')
def physically_possible(case, ctx):
    """Along any direction the spread of mass of each body is not
    negative (allowing for the error of the measurements)."""
    name, (z, a) = case
    r = math.sqrt(1 - z*z)
    u = np.array([r*math.cos(a), r*math.sin(a), z])
    if name.startswith('moore2019'):
        s = api.ps.Moore2019ParameterSet(dict(getattr(pd, name)))
        bodies = ref.bodies_from_meijaard(
            plain(s.to_parameterization('Meijaard2007').parameters))
    elif name.startswith('mooreriderlean'):
        bodies = ref.bodies_from_riderlean(plain(getattr(pd, name)))[0]
    elif name in DICTS:
        bodies = ref.bodies_from_meijaard(plain(getattr(pd, name)))
    else:
        where, bike = name.split('/')
        bodies = ref.bodies_from_meijaard(plain(load(
            ctx, bike, BIKES if where == 'data' else APP
        ).parameters['Benchmark']))
    for i, (m, c, I, _, _) in enumerate(bodies):
        expect(m > 0, 'mass of body {} of {} is {}', i, name, m)
        tr = np.trace(I)/2
        spread = tr - u @ I @ u
        expect(spread > -0.08*tr, 'spread of body {} of {} along {} is {}',
               i, name, u.tolist(), spread)
        expect(c[1] < 0, 'body {} of {} is at or below the ground', i, name)
    ctx.label(name)
    ctx.nontrivial()
