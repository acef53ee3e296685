"""C18: histories of bicycles and riders: load, ride, save, load again."""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from vlib import api, gen, ref
from vlib.core import Registry, close, equal, expect, raises, same
from checks.C17 import answering
from bicycleparameters.main import Bicycle

R = Registry('C18')
BIKES = ['Testbike', 'Otherbike2']
RIDERS = ['Anna', 'Bob']
MEASURED = {'hbb': 0.29, 'lcs': 0.44, 'lsp': 0.23, 'lst': 0.2, 'lamst': 1.2,
            'whb': 0.6, 'LhbR': 1.1, 'LhbF': 0.7, 'hs': 0.9}
# files beside those of the parameters: copies that editors leave and the like
LITTER = ['%sBenchmark.txt~', '%sBenchmark.txt.bak', '.%sBenchmark.txt.swp',
          '.DS_Store', 'notes.md', 'old/%sBenchmark.txt', '%sBenchmark.dat']
COM = ['mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz']


@st.composite
def rider(draw):
    m = draw(gen.fl(5.0, 110.0))
    i = draw(gen.planar_inertia(m, 0.05, 0.5))
    p = {'mB': m, 'xB': draw(gen.fl(-0.2, 1.2)),
         'zB': draw(gen.fl(-1.8, -0.3)), 'IBxx': i[0], 'IByy': i[1],
         'IBzz': i[2], 'IBxz': i[3]}
    if draw(st.booleans()):
        p['yB'] = 0.0
    if draw(st.integers(0, 3)) == 0:
        p.update(IBxy=0.0, IByz=0.0)
    return p


@st.composite
def worlds(draw):
    """What is on the disk, and what is done."""
    bikes = {}
    for b in BIKES:
        p = {k: v for k, v in draw(gen.meijaard()).items() if k != 'v'}
        if draw(st.integers(0, 3)) == 0:
            del p['IHyy']                 # optional
        if draw(st.integers(0, 4)) == 0:
            p.update(yB=0.0, yH=0.0)
        bikes[b] = [p, draw(st.sampled_from(
            [[], ['Principal'], ['Principal', 'Simple'], ['Simple']])),
            draw(st.booleans())]
    riders = {r: {b: draw(rider()) for b in BIKES} for r in RIDERS}
    uncertain = draw(st.booleans())
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('load'), st.integers(0, 1), st.booleans()),
        st.tuples(st.just('ride'), st.integers(0, 1),
                  st.integers(0, 1)),
        st.tuples(st.just('save'), st.integers(0, 1), st.integers(0, 5)),
        st.tuples(st.just('analyse'), st.integers(0, 1),
                  gen.speed)), min_size=3, max_size=12))
    # (most histories ride and save)
    if draw(st.booleans()):
        b = draw(st.integers(0, 1))
        ops = [('load', b, False), ('ride', b, draw(st.integers(0, 1)))] + ops
        ops.append(('save', b, 5))
    return [bikes, riders, uncertain, ops, draw(st.sampled_from(
        ['absolute', 'slash', 'relative', 'default'])),
        draw(gen.subset(LITTER, 0, 3) if draw(st.booleans())
             else st.just([]))]


def read(path):
    """Independent reading of what is written: name -> (value, std)."""
    out = {}
    with open(path) as f:
        for line in f:
            k, v = line.split('=')
            v = v.strip()
            e = 1.0
            if v.startswith('('):
                v, e = v[1:].split(')')
                e = float('1' + e)
            v = v.split('+/-')
            out[k.strip()] = (float(v[0])*e, float(v[1])*e if len(v) > 1
                              else None)
    return out


def split(x):
    if hasattr(x, 'nominal_value'):
        return x.nominal_value, x.std_dev
    return float(x), None


def check_file(path, par, what):
    """The file says what the object holds, within its digits."""
    got = read(path)
    equal(sorted(got), sorted(par), 'names in ' + what)
    for k, x in par.items():
        n, s = split(x)
        if s is None:
            equal(got[k], (n, None), k + ' in ' + what)
        else:
            expect(got[k][1] is not None, '{} in {} lost its uncertainty', k,
                   what)
            if s == 0:
                close(got[k][0], n, k + ' in ' + what, rtol=1e-12)
            else:
                close(got[k][0], n, k + ' in ' + what, rtol=0, atol=0.16*s)
                close(got[k][1], s, 'uncertainty of %s in %s' % (k, what),
                      rtol=0.16)


def same_as_file(par, path, what):
    want = read(path)
    equal(sorted(par), sorted(want), 'names of ' + what)
    for k, v in want.items():
        n, s = split(par[k])
        close(n, v[0], k + ' of ' + what, rtol=1e-14)
        equal(s is None, v[1] is None, k + ' of %s has uncertainty' % what)
        if s is not None:
            close(s, v[1], 'uncertainty of %s of %s' % (k, what), rtol=1e-12)


def combined(bike, man):
    """Frame and rider as one body."""
    b = {k: split(v)[0] for k, v in bike.items()}
    r = {k: split(v)[0] for k, v in man.items()}
    m = b['mB'] + r['mB']
    out = dict(b)
    c = {a: (b['mB']*b[a] + r['mB']*r[a])/m for a in ('xB', 'zB')}
    out.update(c, mB=m, yB=0.0)
    I = {k: b.get(k, 0.0) + r.get(k, 0.0)
         for k in ('IBxx', 'IByy', 'IBzz', 'IBxz')}
    for q in (b, r):
        dx, dz = q['xB'] - c['xB'], q['zB'] - c['zB']
        I['IBxx'] += q['mB']*dz*dz
        I['IBzz'] += q['mB']*dx*dx
        I['IByy'] += q['mB']*(dx*dx + dz*dz)
        I['IBxz'] -= q['mB']*dx*dz
    out.update(I)
    return out


def nominal(par):
    return {k: split(v)[0] for k, v in par.items()}


def tree(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            with open(os.path.join(d, f)) as h:
                out[os.path.relpath(os.path.join(d, f), root)] = h.read()
    return out


def number(par, uncertain):
    # (alternately exact and uncertain)
    return {k: [v, 1e-3*abs(v) + 1e-6]
            if uncertain and i % 3 else v
            for i, (k, v) in enumerate(sorted(par.items()))}


def write(path, par):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        for k, v in par.items():
            f.write('%s = %r+/-%r\n' % (k, v[0], v[1])
                    if isinstance(v, list) else '%s = %r\n' % (k, v))


def state_of(bike):
    return [bike.hasRider, getattr(bike, 'riderName', None),
            {k: nominal(v) for k, v in bike.parameters.items()},
            {k: nominal(v) for k, v in bike.riderPar.items()}]


@R.prop(worlds, quick=350, thorough=6000, shards=3,
        rule='saved with a rider on, or loaded after saving')
def histories(case, ctx):
    bikes, riders, uncertain, ops, data, litter = case
    root = ctx.tmp
    for b in BIKES:
        for i, f in enumerate(litter):
            write(os.path.join(root, 'bicycles', b, 'Parameters',
                               f.replace('%s', b)),
                  {k: v + 0.25 + i for k, v in bikes[b][0].items()}
                  if 'Bench' in f else {'Some notes': 1.0})
    with where(root, data) as data:
        history(bikes, riders, uncertain, ops, root, data, ctx)


@contextlib.contextmanager
def where(root, kind):
    """The ways to name the folder of the data."""
    cwd = os.getcwd()
    try:
        if kind == 'relative':
            os.chdir(os.path.dirname(root))
            yield os.path.basename(root)
        elif kind == 'default':
            os.chdir(root)
            yield None
        else:
            yield root + os.sep*(kind == 'slash')
    finally:
        os.chdir(cwd)


def history(bikes, riders, uncertain, ops, root, data, ctx):

    def folder(i):
        return os.path.join(root, 'bicycles', BIKES[i], 'Parameters')
    for b, (p, more, measured) in bikes.items():
        i = BIKES.index(b)
        write(os.path.join(folder(i), b + 'Benchmark.txt'),
              number(p, uncertain))
        for k, kind in enumerate(more):
            write(os.path.join(folder(i), b + kind + '.txt'),
                  {'w': 1.0 + k + i, 'zz': [0.3 + k, 0.01]})
        if measured:
            write(os.path.join(root, 'bicycles', b, 'RawData',
                               b + 'Measured.txt'), {'hbb': 0.3, 'aB1': 1.0})
    for r, on in riders.items():
        for b, p in on.items():
            write(os.path.join(root, 'riders', r, 'Parameters',
                               r + b + 'Benchmark.txt'),
                  number(p, uncertain))
    objects, states = {}, {}
    saved = set()
    rode = reloaded = False
    for op, i, arg in ops:
        files = tree(root)
        name = BIKES[i]
        if op != 'load' and i not in objects:
            op, arg = 'load', False
        if op == 'load':
            kw = {} if data is None else {'pathToData': data}
            bike = Bicycle(name, forceRawCalc=arg and not bikes[name][2],
                           **kw)
            # (without a raw data directory there is nothing to recalculate)
            objects[i] = bike
            expect(not bike.hasRider, 'loaded with a rider')
            kinds = {'Benchmark'} | set(bikes[name][1])
            if bikes[name][2]:
                kinds.add('Measured')
            equal(set(bike.parameters), kinds, 'parameter sets')
            for k in kinds - {'Measured'}:
                same_as_file(bike.parameters[k], os.path.join(
                    folder(i), name + k + '.txt'), k)
            equal(tree(root), files, 'files after loading')
            reloaded |= i in saved
        elif op == 'ride':
            bike, man = objects[i], RIDERS[arg]
            before = dict(bike.parameters['Benchmark'])
            others = {k: dict(v) for k, v in bike.parameters.items()
                      if k != 'Benchmark'}
            had, who = bike.hasRider, getattr(bike, 'riderName', None)
            bike.add_rider(man)
            now = bike.parameters['Benchmark']
            expect(bike.hasRider, 'no rider on the bicycle')
            if had:
                same(bike.riderName, who, 'rider after trying to add another')
                equal(nominal(now), nominal(before),
                      'parameters after trying to add another rider')
            else:
                same(bike.riderName, man, 'rider')
                path = os.path.join(root, 'riders', man, 'Parameters',
                                    man + name + 'Benchmark.txt')
                same_as_file(bike.riderPar['Benchmark'], path, 'the rider')
                want = combined(before, bike.riderPar['Benchmark'])
                got = nominal(now)
                equal(sorted(set(got) - {'yB', 'IByy'}),
                      sorted(set(want) - {'yB', 'IByy'}), 'names')
                for k, v in want.items():
                    s = abs(v) + (100.0 if k[:2] == 'IB' else 1.0)
                    close(got[k], v, k + ' with rider', rtol=0, atol=1e-11*s)
            equal({k: dict(v) for k, v in bike.parameters.items()
                   if k != 'Benchmark'}, others, 'other parameter sets')
            equal(tree(root), files, 'files after adding a rider')
        elif op == 'save':
            bike = objects[i]
            sets = {k: v for k, v in bike.parameters.items()
                    if k != 'Measured'}
            if bike.hasRider:
                d = os.path.join(root, 'riders', bike.riderName, 'Parameters')
                base = bike.riderName + name
                want = {os.path.join(d, base + 'Benchmark.txt'):
                        bike.riderPar['Benchmark'],
                        os.path.join(d, 'Combined', base + 'Benchmark.txt'):
                        bike.parameters['Benchmark']}
                rode = True
            else:
                want = {os.path.join(folder(i), name + k + '.txt'): v
                        for k, v in sets.items()}
            there = [f for f in want if os.path.exists(f)]
            # one of the files may be refused
            refuse = arg if arg < len(there) else None
            with answering(['n' if j == refuse else 'y'
                            for j in range(len(there))]) as asked:
                bike.save_parameters()
            equal(len(asked), len(there), 'questions asked')
            now = tree(root)
            rel = {os.path.relpath(f, root): f for f in want}
            equal(sorted(now), sorted(set(files) | set(rel)), 'files')
            changed = 0
            for f, path in rel.items():
                if refuse is not None and f in files and now[f] == files[f]:
                    changed += 1
                    continue
                check_file(path, want[path], f)
            if refuse is not None:
                expect(changed >= 1, 'a file was overwritten though refused')
            for f in set(files) - set(rel):
                equal(now[f], files[f], 'unrelated file ' + f)
            saved.add(i)
        else:
            bike = objects[i]
            v = arg
            par = nominal(bike.parameters['Benchmark'])
            M, C1, K0, K2 = bike.canonical(nominal=True)
            want = ref.meijaard(par)
            s = ref.scale(par)
            for a, b, w in zip((M, C1, K0, K2), want, 'M C1 K0 K2'.split()):
                close(a, b, w, rtol=0, atol=1e-10*s[w])
            A, B = bike.state_space(v, nominal=True)
            A2, B2 = ref.state_matrices(*[np.asarray(x, float) for x in
                                          (M, C1, K0, K2)], v, par['g'])
            close(A, A2, 'A', atol=1e-9*(1 + np.abs(A2).max()))
            close(B, B2, 'B', atol=1e-9*(1 + np.abs(B2).max()))
            equal(tree(root), files, 'files after the analysis')
        equal(str(objects[i]), '%s with %s on board.' % (
            name, objects[i].riderName if objects[i].hasRider else 'no one'),
            'description')
        # the other bicycle and its rider are different objects
        for j, o in objects.items():
            same(o.bicycleName, BIKES[j], 'name')
            now = state_of(o)
            if j != i:
                equal(now, states[j], 'state of the other bicycle after ' + op)
            states[j] = now
    ctx.label(*{op for op, _, _ in ops})
    ctx.nontrivial(rode or reloaded)


@R.prop(lambda: st.tuples(gen.meijaard(), rider(), st.sampled_from(
    ['no bicycle', 'no rider', 'no parameters', 'no filetype',
     'no measurements', 'no human', 'bad human', 'forced, no folder',
     'forced, no file', 'forced, nothing'])), quick=240,
        thorough=1000, rule='every case')
def refusals(case, ctx):
    """What is missing is reported and nothing happens."""
    p, man, what = case
    p = {k: v for k, v in p.items() if k != 'v'}
    root = ctx.tmp
    if what.endswith('human'):
        write(os.path.join(root, 'bicycles', 'Testbike', 'RawData',
                           'TestbikeMeasured.txt'), MEASURED)
    bike = api.bicycle_from(root, p)
    equal('Measured' in bike.parameters, what.endswith('human'),
          'measurements are there')
    raw = os.path.join(root, 'riders', 'Anna', 'RawData')
    write(os.path.join(root, 'riders', 'Anna', 'Parameters',
                       'AnnaOtherbikeBenchmark.txt'), man)
    if what == 'no measurements':
        write(os.path.join(root, 'riders', 'Anna', 'Parameters',
                           'AnnaTestbikeBenchmark.txt'), man)
    elif what == 'bad human':
        write(os.path.join(raw, 'AnnaYeadonMeas.txt'), {'totalmass': -1})
        write(os.path.join(raw, 'AnnaTestbikeYeadonCFG.txt'), {})
    files = tree(root)
    before = dict(bike.parameters['Benchmark'])
    if what == 'no bicycle':
        raises(ValueError, lambda: Bicycle('Nobike', pathToData=root),
               'loading a bicycle that does not exist')
    elif what in ('no rider', 'no parameters'):
        raises(KeyError, lambda: bike.add_rider(
            'Carl' if what == 'no rider' else 'Anna'),
            'adding a rider without data')
    elif what == 'no measurements':
        raises(KeyError, lambda: bike.add_rider('Anna', reCalc=True),
               'seating a rider on a bicycle that was not measured')
    elif what.endswith('human'):
        # (the error is that of the reader of the files of the human)
        raises(Exception, lambda: bike.add_rider('Anna'),
               'adding a rider without valid measurements')
    elif what.startswith('forced'):
        # without measurements there is nothing to be recalculated
        name = 'Testbike'
        if what == 'forced, nothing':
            name = 'Emptybike'
            os.makedirs(os.path.join(root, 'bicycles', name))
        elif what == 'forced, no file':
            os.makedirs(os.path.join(root, 'bicycles', name, 'RawData'))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            b = Bicycle(name, pathToData=root, forceRawCalc=True)
        expect(name in out.getvalue() and 'no data' in out.getvalue(),
               'missing data was not reported: {!r}', out.getvalue())
        equal(b.parameters, {} if what == 'forced, nothing' else
              {'Benchmark': before}, 'parameters without measurements')
    else:
        for t in ('matlab', 'pickle'):
            raises(NotImplementedError, lambda: bike.save_parameters(t),
                   'saving as ' + t)
    expect(not bike.hasRider, 'there is a rider')
    equal(bike.parameters['Benchmark'], before, 'parameters afterwards')
    equal(bike.riderPar, {}, 'parameters of the rider afterwards')
    equal(str(bike), 'Testbike with no one on board.', 'description')
    equal(tree(root), files, 'files afterwards')
    ctx.label(what)
    ctx.nontrivial()
