"""C17: parameter files, period files, recordings and file names."""
import builtins
import contextlib
import math
import os

import numpy as np
from hypothesis import strategies as st
from scipy.io import savemat
from uncertainties import ufloat

from vlib import gen
from vlib.core import Registry, close, equal, expect, same
from bicycleparameters import io as bio

R = Registry('C17')

NAMES = ['aB1', 'w', 'c', 'lam', 'TcB1', 'TtB1', 'TtH2', 'mB', 'IBxx', 'g',
         'alphaH3', 'T', 'x_1', 'nR', 'dF']
number = st.one_of(
    gen.fl(-5.0, 5.0), st.integers(-30, 400).map(float),
    st.builds(lambda m, e: m*10.0**e, gen.fl(-9.0, 9.0),
              st.integers(-12, 8)))
FORMS = ['%r', '%.17g', '%.16e', '%.15f', '%+r']


def text_of(x, form):
    """Digits for x, and the number these digits say."""
    s = form % x if form != '%+r' else \
        ('+' if math.copysign(1.0, x) > 0 else '') + repr(x)
    return s, float(s)


@st.composite
def files(draw):
    lines = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(['plain', 'plain', 'uncertain',
                                     'uncertain', 'comment', 'blank',
                                     'indented comment']))
        if kind in ('plain', 'uncertain'):
            n = draw(st.sampled_from([1, 1, 2, 3, 5]))
            vals = [[draw(number), draw(gen.fl(1e-5, 0.5)) if
                     draw(st.integers(0, 4)) else 0.0] for _ in range(n)]
            if kind == 'uncertain' and n > 1 and draw(st.integers(0, 4)) == 0:
                # one of them comes without its uncertainty
                vals[draw(st.integers(0, n - 1))][1] = None
            lines.append([kind, draw(st.sampled_from(NAMES)), vals,
                          draw(st.sampled_from(FORMS)),
                          draw(st.sampled_from(['', ' ', '  ', '\t'])),
                          draw(st.sampled_from(
                              ['', ' # a comment', '#mass = 3 +/- 1, 2',
                               '   ']))])
        else:
            lines.append([kind])
    return lines, draw(st.booleans()), draw(st.sampled_from(['\n', '\r\n']))


@R.prop(files, quick=1500, thorough=24000, shards=2,
        rule='averages, a repeated name, comments or blank lines')
def reading_parameters(case, ctx):
    lines, ended, eol = case
    out, want = [], {}
    for ln in lines:
        if ln[0] == 'comment':
            out.append('# w = 3.0')
        elif ln[0] == 'indented comment':
            out.append('  # w = 3.0')
        elif ln[0] == 'blank':
            out.append(' '*(len(out) % 3))
        else:
            kind, name, vals, form, sp, tail = ln
            words, noms, stds = [], [], []
            for v, s in vals:
                t, v = text_of(v, form)
                if kind == 'uncertain' and s is not None:
                    st_, s = text_of(s, '%r' if s < 1e-9 else form.replace(
                        '+r', 'r'))
                    t += sp + '+/-' + sp + st_
                words.append(t)
                noms.append(v)
                stds.append(s)
            out.append(sp + name + sp + '=' + sp + (sp + ',' + sp).join(words)
                       + sp + tail)
            want[name] = (kind, noms, stds)
    path = os.path.join(ctx.tmp, 'p.txt')
    text = eol.join(out) + (eol if ended else '')
    with open(path, 'w', newline='') as f:
        f.write(text)
    got = bio.load_parameter_text_file(path)
    equal(sorted(got), sorted(want), 'names')
    for k, (kind, noms, stds) in want.items():
        x, n = got[k], len(noms)
        mean = math.fsum(noms)/n
        tol = 1e-14*max(abs(v) for v in noms)
        if kind == 'plain':
            expect(isinstance(x, float), '{} is {!r}', k, x)
            close(x, mean, k, rtol=0, atol=tol)
            if n == 1:
                same(float(x), noms[0], k)
        else:
            close(x.nominal_value, mean, k, rtol=0, atol=tol)
            least = math.sqrt(math.fsum(s*s for s in stds if s))/n
            if None in stds:
                # (whatever is taken for the one that is not known)
                expect(x.std_dev >= least*(1 - 1e-12), 'uncertainty of {}: '
                       '{} with one of {} alone', k, x.std_dev, least)
            else:
                close(x.std_dev, least, 'uncertainty of ' + k, rtol=1e-12)
            # the measurements are independent of all others
            for j, y in got.items():
                if j != k and hasattr(y, 'std_dev'):
                    close((x + y).std_dev, math.hypot(x.std_dev, y.std_dev),
                          'uncertainty of a sum', rtol=1e-9)
    with open(path, newline='') as f:
        equal(f.read(), text, 'file afterwards')
    data = [ln for ln in lines if len(ln) > 1]
    ctx.nontrivial(bool(want) and (any(len(ln[2]) > 1 for ln in data) or
                                   len(want) < len(lines)))


@contextlib.contextmanager
def answering(words):
    """The terminal: answers in order, and nobody there once they end."""
    words = list(words)
    asked = []
    keep = builtins.input

    def answer(prompt=''):
        asked.append(prompt)
        if not words:
            raise EOFError('asked more often than expected')
        return words.pop(0)
    builtins.input = answer
    try:
        yield asked
    finally:
        builtins.input = keep


KINDS = ['float', 'npfloat', 'int', 'ufloat', 'derived', '0d']


@R.prop(lambda: st.tuples(st.dictionaries(
    st.sampled_from(NAMES), st.tuples(number, gen.fl(1e-5, 0.3),
                                      st.sampled_from(KINDS)),
    min_size=1, max_size=8), st.sampled_from(['new', 'folder', 'here', 'yes',
                                              'no', 'what yes', 'what no'])),
        quick=800, thorough=12000,
        rule='the file exists already, or numbers of several kinds')
def writing_parameters(case, ctx):
    par, where = case
    given = {}
    for k, (x, s, kind) in par.items():
        given[k] = {'float': lambda: x, 'npfloat': lambda: np.float64(x),
                    'int': lambda: int(x), '0d': lambda: np.array(x),
                    'ufloat': lambda: ufloat(x, s),
                    'derived': lambda: 2*ufloat(x/2, s/2)}[kind]()
    keep = dict(given)
    d = os.path.join(ctx.tmp, 'a', 'b') if where == 'folder' else ctx.tmp
    path = os.path.join(d, 'p.txt')
    old = 'w = 1.0\n'
    answers = []
    if where.split()[-1] in ('yes', 'no'):
        with open(path, 'w') as f:
            f.write(old)
        answers = [{'what': 'Y', 'yes': 'y', 'no': 'n'}[a]
                   for a in where.split()]
    cwd = os.getcwd()
    with answering(answers) as asked:
        if where == 'here':
            os.chdir(ctx.tmp)
        try:
            saved = bio.write_parameter_text_file(
                'p.txt' if where == 'here' else path, given)
        finally:
            os.chdir(cwd)
    equal(len(asked), len(answers), 'questions asked')
    equal(list(given), list(keep), 'names passed in')
    expect(all(given[k] is keep[k] for k in keep), 'values were changed')
    with open(path) as f:
        text = f.read()
    if where.endswith('no'):
        same(saved, False, 'saved')
        equal(text, old, 'the file that was to be kept')
    else:
        same(saved, True, 'saved')
        equal(len(text.strip().split('\n')), len(par), 'number of lines')
        got = bio.load_parameter_text_file(path)
        equal(list(got), sorted(par), 'names')
        for k, (x, s, kind) in par.items():
            if kind in ('ufloat', 'derived'):
                # (written with one or two digits of the uncertainty)
                close(got[k].nominal_value, x, k, rtol=0, atol=0.16*s)
                close(got[k].std_dev, s, 'uncertainty of ' + k, rtol=0.16)
            else:
                same(float(got[k]), float(int(x) if kind == 'int' else x), k)
    ctx.label(where)
    ctx.nontrivial(bool(answers) or len({v[2] for v in par.values()}) > 2)


PERIODS = ['TcB1', 'TtB1', 'TtB2', 'TcR1', 'TtP1', 'TcH1', 'TtH6', 'TtB12']
value = st.tuples(gen.fl(0.2, 3.0), gen.fl(1e-5, 0.01), st.booleans())


@R.prop(lambda: st.tuples(
    st.lists(st.tuples(st.sampled_from(
        PERIODS + ['mB', 'g', '# remark', '', 'dP', '# T = 3', 'lTP', 'T',
                   'TtB1x']),
        value), max_size=9, unique_by=lambda x: x[0]),
    st.dictionaries(st.sampled_from(PERIODS), value, max_size=7),
    st.booleans(), st.booleans(), st.integers(1, 2),
    st.sampled_from([' = ', ' = ', '=', '= ', '  =\t'])),
        quick=800, thorough=12000,
        rule='replaces some of the periods there, or the file ends abruptly')
def writing_periods(case, ctx):
    lines, new, ended, more, times, equals = case

    def number(x):
        return '%r+/-%r' % (x[0], x[1]) if x[2] else repr(x[0])

    def real(x):
        return ufloat(x[0], x[1]) if x[2] else x[0]
    text = [k if not k or k[0] == '#' else k + equals + number(v)
            for k, v in lines]
    path = os.path.join(ctx.tmp, 'm.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(text) + ('\n' if ended and text else ''))
    before = bio.load_parameter_text_file(path)
    mp = {k: real(v) for k, v in new.items()}
    if more:
        mp.update(mB=99.0, g=1.0)      # whatever else there is in memory
    keep = dict(mp)
    for _ in range(times):
        bio.write_periods_to_file(path, mp)
    equal(mp, keep, 'measurements passed in')
    after = bio.load_parameter_text_file(path)
    equal(sorted(after), sorted(set(before) | set(new)), 'names in the file')
    for k, v in after.items():
        if k in new:
            x, s, unc = new[k]
            if unc:
                close(v.nominal_value, x, k, rtol=0, atol=0.16*s)
                close(v.std_dev, s, 'uncertainty of ' + k, rtol=0.16)
            else:
                same(float(v), x, k)
        else:
            # (equal as written, two readings are different variables)
            same(repr(v), repr(before[k]), k + ', which is no new period')
    with open(path) as f:
        got = f.read().split('\n')
    rest = [s for s in text if s.split('=')[0].strip() not in new]
    while rest and not rest[-1]:
        rest.pop()
    equal(got[:len(rest)], rest, 'other lines of the file')
    ctx.nontrivial(bool(set(before) & set(new)) or not ended)


WORDS = st.sampled_from(['Browser', 'Frame', 'Rwheel', 'Fork', 'First',
                         'Torsional', 'Text', 'An', 'Services', 'Other',
                         'Balanceassistv1', 'Measured', 'Bike2'])
ACRONYMS = st.sampled_from(['DMLS', 'BS', 'LLC', 'X', 'PTP'])


@st.composite
def camel(draw):
    out = []
    for _ in range(draw(st.integers(1, 7))):
        digit = out and out[-1][-1].isdigit()
        if out and not out[-1].isupper() and not digit and \
                draw(st.integers(0, 3)) == 0:
            out.append(draw(ACRONYMS))
        elif not out and draw(st.integers(0, 5)) == 0:
            out.append(draw(ACRONYMS))
        else:
            out.append(draw(WORDS))
    return out


@R.prop(camel, quick=500, thorough=6000, rule='three words or more')
def camel_case(words, ctx):
    s = ''.join(words)
    equal(bio.space_out_camel_case(s, output='list'), words, 'words')
    equal(bio.space_out_camel_case(s), ' '.join(words), 'sentence')
    for low in ('browser', 'x', 'lower case'):
        equal(bio.space_out_camel_case(low), low, 'nothing to space out')
    ctx.nontrivial(len(words) > 2)


@R.prop(lambda: st.tuples(
    st.sampled_from(['Browser', 'Balanceassistv1', 'Rigidcl', 'Yellow']),
    st.sampled_from(['Frame', 'Fork', 'Fwheel', 'Handlebar', 'Rod']),
    st.sampled_from(['Torsional', 'Compound']),
    st.sampled_from(['First', 'Second', 'Third', 'Fourth', 'Fifth',
                     'Sixth']), st.integers(1, 9),
    st.sampled_from(['.mat', '.png', '', '.h5'])), quick=300, thorough=3000,
        rule='every name')
def file_names_of_recordings(case, ctx):
    b, p, k, o, n, ext = case
    got = bio.filename_to_dict('%s%s%s%s%d%s' % (b, p, k, o, n, ext))
    equal(got, {'bicycle': b, 'part': p, 'pendulum': k, 'angleOrder': o,
                'trial': str(n)}, 'meaning of the file name')
    ctx.nontrivial()


RATES = {'sampleRate': 200, 'duration': 30.0, 'ActualRate': 199.5}


@R.prop(lambda: st.tuples(st.lists(gen.fl(-3.0, 3.0), min_size=2,
                                   max_size=20), st.lists(
                                       st.sampled_from(sorted(RATES)),
                                       unique=True),
                          st.booleans(), st.sampled_from(
                              ['', 'windy', 'nobody home', None]),
                          st.booleans()),
        quick=500, thorough=6000, rule='time stamps or notes')
def recordings(case, ctx):
    data, rates, time, notes, row = case
    d = {'bicycle': 'Browser', 'part': 'Fork', 'pendulum': 'Torsional',
         'angleOrder': 'Second', 'trial': '1',
         'notes': np.array([], dtype='<U1') if notes is None else notes,
         'data': np.array(data) if row else np.array(data)[:, None]}
    d.update((k, RATES[k]) for k in rates)
    if time:
        d['time'] = np.arange(len(data))[:, None]/7.0
    path = os.path.join(ctx.tmp, 'x.mat')
    savemat(path, d)
    got = bio.load_pendulum_mat_file(path)
    want = set(d)
    if time:
        want -= {'sampleRate', 'duration'}
    equal(sorted(got), sorted(want), 'entries')
    equal(list(got['data']), data, 'data')
    for k in want & {'bicycle', 'part', 'pendulum', 'angleOrder', 'trial'}:
        same(str(got[k]), d[k], k)
    equal(str(got['notes']), notes or '', 'notes')
    for k in want & {'sampleRate', 'duration', 'ActualRate'}:
        equal(float(got[k]), float(d[k]), k)
    if time:
        equal(list(got['time']), list(d['time'][:, 0]), 'time')
    ctx.nontrivial(time or bool(notes))
