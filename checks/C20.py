"""C20: tables of measurements and parameters."""
import math
import os

from hypothesis import strategies as st
from uncertainties import ufloat

from vlib import api, gen
from vlib.core import Registry, close, equal, expect, same
from bicycleparameters import tables
from bicycleparameters.main import Bicycle

R = Registry('C20')

value = st.one_of(gen.fl(-3.0, 3.0), gen.fl(-200.0, 200.0),
                  st.sampled_from([0.0, 1.0, -0.5, 9.81]))
sigma = st.one_of(
    gen.fl(1e-6, 0.01), gen.fl(0.01, 1.0), gen.fl(1.0, 40.0),
    gen.fl(-13.0, 6.0).map(lambda e: float('%.6g' % 10.0**e)),
    st.sampled_from([0.0, 1e-4, 0.00095, 0.096, 0.96, 9.6, 1.0, 0.1]))


def check_rounded(text, x, s, what):
    """One significant digit of the uncertainty (two if rounding carries),
    and as many decimals of the value."""
    expect(text.count('+/-') == 1, '{}: {!r}', what, text)
    n, u = text.split('+/-')
    check_pair(n, u, x, s, what)


def check_pair(n, u, x, s, what):
    fn, fu = float(n), float(u)
    if s == 0:
        equal(fu, 0.0, what + ': uncertainty')
        close(fn, x, what + ': value', rtol=1e-12, atol=1e-15)
        return
    e = math.floor(math.log10(s))
    # (a power of ten within rounding error)
    near = round(math.log10(s))
    if abs(s/10.0**near - 1) < 1e-9 and len(
            u.partition('.')[2]) == max(-near, 0):
        e = near
    unit = 10.0**min(e, 0)
    # (ties may go either way)
    expect(abs(fu - s) <= unit*(0.5 + 1e-6), '{}: uncertainty {} of {!r}',
           what, u, s)
    expect(abs(fn - x) <= unit*(0.5 + 1e-6) + 4e-16*abs(x), '{}: value {} of {!r} +/- {!r}',
           what, n, x, s)
    places = max(-e, 0)
    for t in (n, u):
        equal(len(t.partition('.')[2]), places, what + ': decimals of ' + t)


@R.prop(lambda: st.tuples(value, sigma, st.booleans()), quick=3000,
        thorough=60000, rule='non-zero uncertainty')
def rounding(case, ctx):
    x, s, derived = case
    if derived:
        u = ufloat(x/2, s/2)*2
    else:
        u = ufloat(x, s)
    x, s = u.nominal_value, u.std_dev
    # (a digit that is within rounding error of the next)
    if s and abs(math.log10(s) - round(math.log10(s))) < 1e-9 and \
            10.0**round(math.log10(s)) != s:
        return
    check_rounded(tables.uround(u), x, s, '%r +/- %r' % (x, s))
    for plain in (x, int(x)):
        same(tables.uround(plain), str(plain), 'plain number')
    ctx.nontrivial(s > 0)


BODIES = ['B', 'F', 'H', 'R', 'S', 'G', 'D', 'P']
LATEX = {'w': 'w', 'c': 'c', 'lam': r'\lambda', 'g': 'g', 'f': 'f',
         'gamma': r'\gamma', 'lcs': 'l_{cs}', 'hbb': 'h_{bb}',
         'lsp': 'l_{sp}', 'lst': 'l_{st}', 'lamst': r'\lambda_{st}',
         'whb': 'w_{hb}', 'LhbF': 'l_{hbF}', 'LhbR': 'l_{hbR}', 'd': 'd',
         'l': 'l', 'xcl': 'x_{cl}', 'zcl': 'z_{cl}', 'ds1': 'd_{s1}',
         'ds3': 'd_{s3}'}
for b in BODIES:
    LATEX['m' + b] = 'm_' + b
    for q in 'xyz':
        LATEX[q + b] = '%s_%s' % (q, b)
    for q in ('xx', 'yy', 'zz', 'xz', 'xy', 'yz'):
        LATEX['I' + b + q] = 'I_{%s%s}' % (b, q)
    for i in (1, 2, 3, 4, 5, 6, 9, 10, 12):
        LATEX['a%s%d' % (b, i)] = 'a_{%s%d}' % (b, i)
        LATEX['alpha%s%d' % (b, i)] = r'\alpha_{%s%d}' % (b, i)
        LATEX['Tt%s%d' % (b, i)] = 'T^t_{%s%d}' % (b, i)
        LATEX['Tc%s%d' % (b, i)] = 'T^c_{%s%d}' % (b, i)
for k in ('rR', 'rF', 'nR', 'nF', 'dR', 'dF', 'dP', 'lP', 'lF', 'lR',
          'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'h7', 'd1', 'd2', 'd3', 'd4',
          'd5', 'd6'):
    LATEX[k] = k[0] + '_' + k[1]
assert len(set(LATEX.values())) == len(LATEX)


@R.prop(lambda: st.sampled_from(sorted(LATEX)), quick=1500, thorough=3000,
        rule='every symbol')
def symbols(name, ctx):
    equal(tables.to_latex(name), LATEX[name], 'symbol of ' + name)
    ctx.nontrivial()


@st.composite
def sets(draw):
    """Some bicycles and what is known of them."""
    names = draw(st.lists(st.sampled_from(
        ['A', 'Testbike', 'Otherbike2', 'Averylongnamedbicyclewithwheels',
         'Browser']), min_size=1, max_size=4, unique=True))
    keys = draw(gen.subset(sorted(LATEX), 1, 8))
    # (names that differ in case only are sorted arbitrarily)
    keys = list({k.lower(): k for k in keys}.values())
    out = []
    for n in names:
        mine = {}
        for k in keys:
            if draw(st.integers(0, 3)):
                mine[k] = [draw(value), draw(st.one_of(st.none(), sigma))]
        out.append([n, mine])
    return [out, draw(st.booleans()), draw(st.sampled_from(
        ['Benchmark', 'Measured'])), draw(st.integers(1, 3))]


def parse(text):
    """Cells of a grid table, its rules checked."""
    lines = text.split('\n')
    expect(len({len(x) for x in lines}) == 1, 'ragged table:\n{}', text)
    rules = lines[0::2]
    rows = []
    for ln in lines[1::2]:
        expect(ln[0] == '|' and ln[-1] == '|', 'row {!r}', ln)
        rows.append((ln, [c.strip() for c in ln[1:-1].split('|')],
                     [i for i, ch in enumerate(ln) if ch == '|']))
    expect(len(rules) == len(rows) + 1, 'rules and rows of\n{}', text)
    for r in rules:
        expect(set(r) <= set('+-='), 'rule {!r}', r)
    for i, (ln, _, cols) in enumerate(rows):
        for r in (rules[i], rules[i + 1]):
            for c in cols:
                # a column ends at a corner of the rules around it
                expect(r[c] == '+', 'no corner at {} in\n{}', c, text)
    return rules, [c for _, c, _ in rows]


@R.prop(sets, quick=500, thorough=8000, shards=2,
        rule='two bicycles or more, something missing in one of them')
def grid_tables(case, ctx):
    bikes, latex, source, times = case
    objs = []
    for name, par in bikes:
        given = {k: v[0] if v[1] is None else list(v) for k, v in par.items()}
        api.write_bike(ctx.tmp, name, benchmark=given if source ==
                       'Benchmark' else {'w': 1.0}, measured=given
                       if source == 'Measured' else None)
        objs.append(Bicycle(name, pathToData=ctx.tmp))
    before = [{k: repr(v) for k, v in o.parameters[source].items()}
              for o in objs]
    table = tables.Table(source, latex, tuple(objs) if times == 1 else objs)
    keys = sorted({k for _, p in bikes for k in p}, key=str.lower)
    equal(list(table.allVariables), keys, 'variables')
    path = os.path.join(ctx.tmp, 't.rst')
    if times > 1:
        with open(path, 'w') as f:
            f.write('leftover\n'*20000)
    for i in range(times):
        text = table.create_rst_table(path) if i == times - 1 else \
            table.create_rst_table()
    with open(path) as f:
        equal(f.read(), text, 'file')
    rules, rows = parse(text)
    equal([set(r) for r in rules[1:3]], [{'+', '='}, {'+', '-'}]
          if keys else [{'+', '='}, {'+', '='}], 'rule below the names')
    equal(rows[0], [''] + [n for n, _ in bikes], 'names')
    head = [':math:`v`', r':math:`\sigma`'] if latex else ['v', 'sigma']
    equal(rows[1], ['Variable'] + head*len(bikes), 'headings')
    equal(len(rows), 2 + len(keys), 'number of rows')
    for k, row in zip(keys, rows[2:]):
        equal(row[0], ':math:`%s`' % LATEX[k] if latex else k, 'variable')
        equal(len(row), 1 + 2*len(bikes), 'columns of ' + k)
        for i, (n, par) in enumerate(bikes):
            val, sig = row[1 + 2*i], row[2 + 2*i]
            what = '%s of %s' % (k, n)
            if k not in par:
                equal((val, sig), ('NA', 'NA'), what)
            elif par[k][1] is None:
                equal((float(val), sig), (par[k][0], 'NA'), what)
            else:
                check_pair(val, sig, par[k][0], par[k][1], what)
    equal([{k: repr(v) for k, v in o.parameters[source].items()}
           for o in objs], before, 'parameters afterwards')
    ctx.label(source, 'latex' if latex else 'plain', '%d times' % times)
    ctx.nontrivial(len(bikes) > 1 and any(
        k not in p for k in keys for _, p in bikes))
