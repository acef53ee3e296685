"""C09: parameter sets: what is accepted, and writing and reading files."""
import configparser
import html
import os
import re

import numpy as np
import yaml
from hypothesis import strategies as st

from vlib import api, gen
from vlib.core import Registry, close, equal, expect, raises

R = Registry('C09')


MOORE2012 = ('d1 d2 d3 g ic11 ic22 ic31 ic33 id11 id22 ie11 ie22 ie31 ie33 '
             'if11 if22 l1 l2 l3 l4 mc md me mf rf rr v').split()
moore2012 = st.tuples(*[gen.fl(-3.0, 90.0)]*len(MOORE2012)).map(
    lambda v: dict(zip(MOORE2012, v)))
MAKE = {'Meijaard2007': (gen.meijaard(), lambda p, r: api.mset(p, r)),
        'Meijaard2007WithFeedback': (gen.meijaard_feedback(),
                                     lambda p, r: api.fbset(p, r)),
        'Moore2012': (moore2012, lambda p, r:
                      api.ps.Moore2012ParameterSet(dict(p), r)),
        'Moore2019': (gen.moore2019(), lambda p, r:
                      api.ps.Moore2019ParameterSet(dict(p))),
        'MooreRiderLean2012': (gen.riderlean(), lambda p, r:
                               api.ps.MooreRiderLean2012ParameterSet(
                                   dict(p)))}

anyset = st.sampled_from(sorted(MAKE)).flatmap(
    lambda k: st.tuples(st.just(k), MAKE[k][0], st.booleans()))

BADVAL = {'int': 3, 'string': '1.0', 'none': None, 'list': [1.0],
          'bool': True, 'complex': 1j, 'array': np.array([1.0, 2.0])}


@R.prop(lambda: st.tuples(anyset, st.integers(0, 100),
                          st.sampled_from(sorted(BADVAL)),
                          st.booleans(), st.booleans()),
        quick=600, thorough=9000, rule='every generated set')
def accepted_and_refused(case, ctx):
    (kind, p, rider), i, bad, npfloat, extra = case
    _, make = MAKE[kind]
    keys = sorted(p)
    equal(sorted(type(make(p, rider)).par_strings), keys, 'parameters')
    key = keys[i % len(keys)]
    good = {k: (np.float64(v) if npfloat else v) for k, v in p.items()}
    if extra:
        good['unrelated'] = 'text'
    s = make(good, rider)
    equal(s.parameterization, kind, 'name of the parameterization')
    equal({k: s.parameters[k] for k in keys}, {k: p[k] for k in keys},
          'stored values')
    if hasattr(s, 'includes_rider'):
        equal(s.includes_rider, rider, 'rider flag')
    missing = {k: v for k, v in good.items() if k != key}
    try:
        make(missing, rider)
    except ValueError as e:
        expect(re.search(r'\b%s\b' % key, str(e)),
               'the error for the missing {} does not name it: {}', key, e)
    else:
        expect(False, 'a set without {} was accepted', key)
    raises(ValueError, lambda: make(dict(good, **{key: BADVAL[bad]}), rider),
           '%s as the value of %s' % (bad, key))
    ctx.label(kind, bad)
    ctx.nontrivial()


@R.prop(lambda: st.tuples(anyset, st.sampled_from(
    ['set', 'float64', 'converted']), st.integers(-30, 30)), quick=500,
        thorough=8000, rule='every generated set')
def yaml_file(case, ctx):
    """What is written can be read back and is the same set."""
    (kind, p, rider), how, e = case
    _, make = MAKE[kind]
    k0 = sorted(p)[0]
    p = dict(p, **{k0: p[k0]*10.0**e})       # very large and small numbers
    s = make({k: np.float64(v) for k, v in p.items()}
             if how == 'float64' else p, rider)
    if how == 'converted' and kind in ('Moore2019', 'Meijaard2007'):
        s = s.to_parameterization('Meijaard2007WithFeedback')
    path = os.path.join(ctx.tmp, 'set.yml')
    with open(path, 'w') as f:
        f.write('leftover: [1, 2\n'*200)     # an older, longer file
    s.to_yaml(path)
    with open(path) as f:
        d = yaml.safe_load(f)
    equal(d['parameterization'], s.parameterization, 'parameterization')
    want = {k: float(v) for k, v in s.parameters.items()}
    equal({k: float(v) for k, v in d['values'].items()}, want,
          'values in the file')
    if hasattr(s, 'includes_rider'):
        equal(d['rider'], s.includes_rider, 'rider flag in the file')
    t = type(s)
    again = t(d['values'], d['rider']) if hasattr(s, 'includes_rider') else \
        t(d['values'])
    equal({k: again.parameters[k] for k in t.par_strings},
          {k: want[k] for k in t.par_strings}, 'values of the set read back')
    read = getattr(t, '_from_yaml', None)
    if read is not None and kind != 'Moore2012':   # has no reader of its own
        r = read(path)
        equal(type(r), t, 'type of the set read by the package')
        equal({k: float(v) for k, v in r.parameters.items()}, want,
              'values read by the package')
        if hasattr(s, 'includes_rider'):
            equal(r.includes_rider, s.includes_rider, 'rider flag read')
    ctx.label(s.parameterization, how)
    ctx.nontrivial()


@R.prop(lambda: st.tuples(anyset, st.booleans()), quick=400, thorough=6000,
        rule='every generated set')
def ini_file(case, ctx):
    (kind, p, rider), npf = case
    s = MAKE[kind][1]({k: np.float64(v) for k, v in p.items()} if npf else p,
                      rider)
    path = os.path.join(ctx.tmp, 'set.ini')
    with open(path, 'w') as f:
        f.write('leftover=1\n'*500)
    s.to_ini(path)
    with open(path) as f:
        text = f.read()
    c = configparser.ConfigParser()
    c.optionxform = str
    c.read_string('[x]\n' + text)
    got = {k: float(v) for k, v in c['x'].items()}
    equal(sorted(got), sorted(p), 'names in the file')
    for k in p:
        close(got[k], p[k], k + ' in the file', rtol=1e-14, atol=1e-15)
    ctx.label(kind)
    ctx.nontrivial()


@R.prop(lambda: st.tuples(anyset, st.sampled_from(
    [{}, {'other': 1.0}, {'remark': 'a word'}])), quick=300, thorough=4000,
        rule='every generated set')
def html_table(case, ctx):
    (kind, p, rider), more = case
    s = MAKE[kind][1](dict(p, **more), rider)
    text = html.unescape(s._repr_html_())
    expect(s.parameterization in text, 'the name is not shown')
    rows = re.findall(r'<tr>\s*<td>(.*?)</td>\s*<td>(.*?)</td>\s*</tr>',
                      text, re.S)
    equal(len(rows), len(s.par_strings), 'number of rows')
    equal(len(set(r[0] for r in rows)), len(rows),
          'number of different symbols: %r' % sorted(r[0] for r in rows))
    shown = {}
    for sym, val in rows:
        shown[re.sub(r'^\\\(|\\\)$', '', sym.strip())] = float(val)
    equal(sorted(s.par_strings), sorted(p), 'parameters')
    for k, sym in s.par_strings.items():
        expect(sym in shown, 'symbol {} of {} not shown', sym, k)
        close(shown[sym], p[k], 'value shown for ' + k, atol=5.01e-4)
        # m_P is called mP, I_{E11} is called ie11
        flat = re.sub(r'[\\{}_]', '', sym).lower()
        if k == 'lam':
            flat = flat.replace('lambda', 'lam')
        if not (k.startswith('k') and kind == 'Meijaard2007WithFeedback'):
            equal(flat, k.lower(), 'symbol of ' + k)
        expect(sym.count('{') == sym.count('}'), 'symbol {!r}', sym)
    ctx.label(kind)
    ctx.nontrivial()
