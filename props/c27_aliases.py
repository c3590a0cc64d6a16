"""C27 deprecated names remain aliases of the current ones."""

import os
import warnings

import h5py
import numpy as np
from hypothesis import strategies as st
from traits.api import TraitError

import acoular as ac
from vlib import bf, zoo
from vlib.core import subcheck
from vlib.zoo import fl

P = 'C27'


def dat(n=12, c=2, seed=1):
    return np.random.default_rng(seed).normal(size=(n, c))


def ts(n=12, c=2, seed=1, cls=None):
    return (cls or ac.TimeSamples)(data=dat(n, c, seed), sample_freq=100.0)


def mics(n=2, seed=1):
    return ac.MicGeom(pos_total=np.random.default_rng(seed).normal(size=(3, n)))


def steer():
    return ac.SteeringVector(grid=ac.LineGrid(loc=(0.0, 0, 1), length=0.5, num_points=2), mics=mics(3))


def fdata():
    return ac.PowerSpectraImport(csm=np.eye(3)[None].astype(complex), frequencies=np.array([100.0]))


def h5(ctx, i):
    name = ctx.path(f't{i}.h5')
    if not os.path.exists(name):
        with h5py.File(name, 'w') as f:
            f['time_data'] = dat(5 + i, 2, i)
            f['time_data'].attrs['sample_freq'] = 100.0
    return name


def xml(ctx, i):
    name = ctx.path(f'm{i}.xml')
    with open(name, 'w') as f:
        f.write('<?xml version="1.0"?><MicArray name="a">' + ''.join(f'<pos Name="P{k}" subgrid="s" x="{k + i}" y="{k}" z="0" factor="{k + i + 1}"/>' for k in range(2 + i)) + '</MicArray>')
    return name


def psf_bf(cls, **a):
    return lambda ctx: cls(freq_data=fdata(), steer=steer(), cached=False, **a)


num = lambda *v: lambda ctx, i: v[i]
pos = lambda ctx, i: np.random.default_rng(i).normal(size=(3, 2 + i))
file_ = lambda ctx, i: ctx.path(f'out{i}')
spectrum = lambda ctx: ac.RFFT(source=ts(16), block_size=4)

# class, how to make one, old name, new name, values that can be assigned (None: read only)
TABLE = [
    ('PowerSpectra', lambda ctx: ac.PowerSpectra(source=ts(300), block_size=128, cached=False), 'time_data', 'source', lambda ctx, i: ts(300 + i, 2, i)),
    ('PowerSpectra', lambda ctx: ac.PowerSpectra(source=ts(300), block_size=128, cached=False), 'numchannels', 'num_channels', None),
    ('RFFT', spectrum, 'numchannels', 'num_channels', None), ('RFFT', spectrum, 'numsamples', 'num_samples', None), ('RFFT', spectrum, 'numfreqs', 'num_freqs', None),
    ('IRFFT', lambda ctx: ac.IRFFT(source=spectrum(ctx)), 'numsamples', 'num_samples', None), ('IRFFT', lambda ctx: ac.IRFFT(source=spectrum(ctx)), 'numchannels', 'num_channels', None),
    ('AutoPowerSpectra', lambda ctx: ac.AutoPowerSpectra(source=spectrum(ctx)), 'numchannels', 'num_channels', None), ('AutoPowerSpectra', lambda ctx: ac.AutoPowerSpectra(source=spectrum(ctx)), 'numfreqs', 'num_freqs', None),
    ('CrossPowerSpectra', lambda ctx: ac.CrossPowerSpectra(source=spectrum(ctx)), 'numchannels', 'num_channels', None), ('CrossPowerSpectra', lambda ctx: ac.CrossPowerSpectra(source=spectrum(ctx)), 'numsamples', 'num_samples', None),
    ('TimeSamples', lambda ctx: ts(), 'name', 'file', h5), ('TimeSamples', lambda ctx: ac.TimeSamples(), 'name', 'file', h5), ('TimeSamples', lambda ctx: ts(), 'numchannels', 'num_channels', num(3, 4)), ('TimeSamples', lambda ctx: ts(), 'numsamples', 'num_samples', num(3, 4)),
    ('MaskedTimeSamples', lambda ctx: ts(cls=ac.MaskedTimeSamples), 'name', 'file', h5), ('MaskedTimeSamples', lambda ctx: ts(cls=ac.MaskedTimeSamples), 'numchannels', 'num_channels', None),
    ('MaskedTimeSamples', lambda ctx: ts(cls=ac.MaskedTimeSamples), 'numsamples', 'num_samples', None), ('MaskedTimeSamples', lambda ctx: ts(cls=ac.MaskedTimeSamples), 'numsamples_total', 'num_samples_total', num(9, 8)),
    ('MaskedTimeSamples', lambda ctx: ts(cls=ac.MaskedTimeSamples), 'numchannels_total', 'num_channels_total', num(1, 3)),
    ('PointSource', lambda ctx: ac.PointSource(signal=ac.WNoiseGenerator(sample_freq=100.0, num_samples=9), mics=mics()), 'numchannels', 'num_channels', None),
    ('PointSource', lambda ctx: ac.PointSource(signal=ac.WNoiseGenerator(sample_freq=100.0, num_samples=9), mics=mics()), 'numsamples', 'num_samples', None),
    ('UncorrelatedNoiseSource', lambda ctx: ac.UncorrelatedNoiseSource(signal=ac.WNoiseGenerator(sample_freq=100.0, num_samples=9), mics=mics()), 'numchannels', 'num_channels', None),
    ('SourceMixer', lambda ctx: ac.SourceMixer(sources=[ts(), ts(seed=2)]), 'numchannels', 'num_channels', None), ('SourceMixer', lambda ctx: ac.SourceMixer(sources=[ts(), ts(seed=2)]), 'numsamples', 'num_samples', None),
    ('WNoiseGenerator', lambda ctx: ac.WNoiseGenerator(sample_freq=100.0, num_samples=9), 'numsamples', 'num_samples', num(5, 17)), ('SineGenerator', lambda ctx: ac.SineGenerator(sample_freq=100.0, num_samples=9), 'numsamples', 'num_samples', num(5, 17)),
    ('GenericSignalGenerator', lambda ctx: ac.GenericSignalGenerator(source=ts()), 'rms', 'amplitude', num(0.5, 2.5)), ('GenericSignalGenerator', lambda ctx: ac.GenericSignalGenerator(source=ts()), 'numsamples', 'num_samples', num(5, 17)),
    ('MicGeom', lambda ctx: mics(3), 'mpos_tot', 'pos_total', pos), ('MicGeom', lambda ctx: mics(3), 'mpos', 'pos', None), ('MicGeom', lambda ctx: mics(3), 'from_file', 'file', xml),
    ('RectGrid', lambda ctx: ac.RectGrid(increment=0.5), 'gpos', 'pos', None), ('RectGrid3D', lambda ctx: ac.RectGrid3D(increment=0.5), 'gpos', 'pos', None),
    ('ImportGrid', lambda ctx: ac.ImportGrid(pos=pos(ctx, 1)), 'gpos', 'pos', pos), ('ImportGrid', lambda ctx: ac.ImportGrid(pos=pos(ctx, 1)), 'gpos_file', 'pos', pos), ('ImportGrid', lambda ctx: ac.ImportGrid(pos=pos(ctx, 1)), 'from_file', 'file', xml),
    ('LineGrid', lambda ctx: ac.LineGrid(length=2.0, num_points=3), 'gpos', 'pos', None), ('LineGrid', lambda ctx: ac.LineGrid(length=2.0, num_points=3), 'numpoints', 'num_points', num(2, 5)),
    ('MergeGrid', lambda ctx: ac.MergeGrid(grids=[ac.LineGrid(length=2.0, num_points=3), ac.RectGrid(increment=0.5)]), 'gpos', 'pos', None),
    ('Calib', lambda ctx: ac.Calib(source=ts(), data=np.ones(2)), 'from_file', 'file', xml),
    ('BeamformerDamasPlus', psf_bf(ac.BeamformerDamasPlus), 'max_iter', 'n_iter', num(5, 17)), ('BeamformerCleansc', psf_bf(ac.BeamformerCleansc), 'n', 'n_iter', num(5, 17)),
    ('BeamformerCMF', psf_bf(ac.BeamformerCMF), 'max_iter', 'n_iter', num(5, 17)), ('BeamformerSODIX', psf_bf(ac.BeamformerSODIX), 'max_iter', 'n_iter', num(5, 17)), ('BeamformerGIB', psf_bf(ac.BeamformerGIB), 'max_iter', 'n_iter', num(5, 17)),
    ('Average', lambda ctx: ac.Average(source=ts(), num_per_average=2), 'naverage', 'num_per_average', num(3, 4)), ('Average', lambda ctx: ac.Average(source=ts(), num_per_average=2), 'numsamples', 'num_samples', None),
    ('Average', lambda ctx: ac.Average(source=ts(), num_per_average=2), 'numchannels', 'num_channels', None),
    ('MaskedTimeOut', lambda ctx: ac.MaskedTimeOut(source=ts()), 'numchannels_total', 'num_channels_total', None), ('MaskedTimeOut', lambda ctx: ac.MaskedTimeOut(source=ts()), 'numsamples_total', 'num_samples_total', None),
    ('MaskedTimeOut', lambda ctx: ac.MaskedTimeOut(source=ts(), start=2, invalid_channels=[0]), 'numchannels', 'num_channels', None), ('MaskedTimeOut', lambda ctx: ac.MaskedTimeOut(source=ts(), start=2, invalid_channels=[0]), 'numsamples', 'num_samples', None),
    ('OctaveFilterBank', lambda ctx: ac.OctaveFilterBank(source=ac.TimeSamples(data=dat(), sample_freq=48000.0), lband=21, hband=25), 'numbands', 'num_bands', None),
    ('WriteWAV', lambda ctx: ac.WriteWAV(source=ts(), channels=[0]), 'name', 'file', file_), ('WriteH5', lambda ctx: ac.WriteH5(source=ts()), 'name', 'file', file_),
    ('WriteH5', lambda ctx: ac.WriteH5(source=ts()), 'numsamples_write', 'num_samples_write', num(3, -1)), ('WriteH5', lambda ctx: ac.WriteH5(source=ts()), 'writeflag', 'write_flag', num(False, True)),
    ('BeamformerTime', lambda ctx: ac.BeamformerTime(source=ts(c=3, n=600), steer=steer()), 'numchannels', 'num_channels', None),
    ('RotatingFlow', lambda ctx: ac.RotatingFlow(rps=1.5), 'rpm', 'rps', num(30.0, -90.0)),
]
# files that can be chosen but not read back as state of the other name have the same name
RO_WRITABLE = {('MaskedTimeOut', 'numchannels_total'), ('MaskedTimeOut', 'numsamples_total')}


def read(o, name):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        v = getattr(o, name)
    return v, [w for w in rec if issubclass(w.category, DeprecationWarning)]


def write(o, name, v):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        setattr(o, name, v)
    return [w for w in rec if issubclass(w.category, DeprecationWarning)]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool((a == b).all())
    return a is b or a == b


@subcheck(P, 'attributes', st.fixed_dictionaries({'entry': st.sampled_from(sorted(range(len(TABLE)), key=lambda i: TABLE[i][4] is None)), 'ops': st.lists(st.tuples(st.sampled_from(['old', 'new']), st.sampled_from(['w', 'w', 'r']), st.integers(0, 1)).map(list), min_size=1, max_size=6)}),
          quick=1500, shards=4, rule='a value is assigned through one of the names')
def attributes(d, ctx):
    cls, make, old, new, vals = TABLE[d['entry']]
    o, twin = make(ctx), make(ctx)
    what = f'{cls}.{old}'
    conv = (lambda v: -60 * v) if old == 'rpm' else (lambda v: v)
    wrote = False
    for which, rw, i in d['ops']:
        if rw == 'w':
            if vals is None:
                if which == 'new' or (cls, old) in RO_WRITABLE:
                    continue
                before, _ = read(o, new)
                try:
                    setattr(o, old, before)
                except TraitError:
                    pass
                else:
                    ctx.fail(f'{what} can be assigned, although {new} is derived')
                continue
            v = vals(ctx, i)
            w = write(o, old if which == 'old' else new, conv(v) if which == 'old' else v)
            setattr(twin, new, v)
            ctx.equal(bool(any(f"'{old}'" in str(m.message) or f'"{old}"' in str(m.message) for m in w)), which == 'old', f'warning about the deprecated name on writing {old if which == "old" else new}')
            wrote = True
        a, wa = read(o, old)
        b, wb = read(o, new)
        c, _ = read(twin, new)
        ctx.check(same(a, conv(b)) or (old == 'rpm' and abs(a - conv(b)) < 1e-9), f'{what} is {a}, {new} is {b}')
        if new != 'source':
            ctx.check(same(b, c) or (old == 'rpm' and abs(b - c) < 1e-12), f'{cls}.{new} is {b}, an object with assignments to {new} has {c}')
            da, db = (getattr(x, 'digest', None) for x in (o, twin))
            if old != 'rpm':
                ctx.equal(da, db, f'digest after assignments to {old} or {new}')
        ctx.check(any(f"'{old}'" in str(m.message) or f'"{old}"' in str(m.message) for m in wa), f'no deprecation warning on reading {what}')
        ctx.check(not wb, f'deprecation warning on reading {cls}.{new}')
    if wrote and cls in ('TimeSamples', 'MaskedTimeSamples') and old == 'name':
        ctx.same(zoo.full(o, 3), zoo.full(twin, 3), 'data of the file')
    # as keyword of the constructor
    if vals is not None:
        v = vals(ctx, 0)
        kl = getattr(ac, cls)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if cls not in ('GenericSignalGenerator',) and not (cls in ('TimeSamples', 'MaskedTimeSamples') and old != 'name'):
                x, y = kl(**{old: conv(v)}), kl(**{new: v})
                ctx.check(same(getattr(x, new), getattr(y, new)) or old == 'rpm', f'{what} as keyword')
    for x in (o, twin):
        f = getattr(x, 'h5f', None)
        if f is not None:
            f.close()
    ctx.label(what)
    ctx.interesting(wrote)


@subcheck(P, 'generators', st.fixed_dictionaries({'p': zoo.pipeline(depth=(0, 3)), 'num': st.integers(1, 20)}), quick=250, shards=2, rule='a chain of at least two objects')
def generators(d, ctx):
    """Every object of a chain announces the same under its old names."""
    o = zoo.build(d['p']['spec'])
    seen = []
    while o is not None:
        seen.append(type(o).__name__)
        for old, new in (('numchannels', 'num_channels'), ('numsamples', 'num_samples')):
            a, w = read(o, old)
            ctx.equal(a, getattr(o, new), f'{type(o).__name__}.{old}')
            ctx.check(bool(w), f'no warning on reading {type(o).__name__}.{old}')
        o = getattr(o, 'source', None)
    ctx.label(*seen)
    ctx.interesting(len(seen) > 1)


# ---------------------------------------------------------------- classes

def construct(cls, **a):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        o = cls(**a)
    return o, any(issubclass(w.category, DeprecationWarning) and cls.__name__ in str(w.message) for w in rec)


@subcheck(P, 'classes', st.fixed_dictionaries({'k': st.integers(0, 4), 'n': st.integers(4, 60), 'c': st.integers(1, 3), 'seed': zoo.seeds, 'num': st.integers(1, 25), 'par': st.integers(0, 3), 'change': st.booleans()}), quick=400, shards=2, rule='parameters differ from their defaults')
def classes(d, ctx):
    src = ts(d['n'], d['c'], d['seed'])
    p = d['par']
    old, new, args = [(ac.TimeAverage, ac.Average, {'num_per_average': 1 + p}), (ac.TimeCache, ac.Cache, {}), (ac.MaskedTimeInOut, ac.MaskedTimeOut, {'start': p, 'invalid_channels': [0] if d['c'] > 1 else []}),
                      (ac.FFTSpectra, ac.RFFT, {'block_size': 2 + 2 * p, 'window': ['Rectangular', 'Hanning', 'Hamming', 'Blackman'][p]}), (ac.TimeInOut, ac.TimeOut, {})][d['k']]
    if old is ac.TimeInOut:
        def result(self, num):
            for b in self.source.result(num):
                yield b * 2
        body = {'result': result}
        old, new = type('TimeInOut', (old,), body), type('TimeOut', (new,), body)
    ctx.check(issubclass(old, new) or d['k'] == 4, f'{old.__name__} is no {new.__name__}')
    if d['change']:
        o, w = construct(old, source=src)
        for k, v in args.items():
            setattr(o, k, v)
    else:
        o, w = construct(old, source=src, **args)
    ctx.check(w, f'no deprecation warning on constructing {old.__name__}')
    q, w = construct(new, source=src, **args)
    ctx.check(not w, f'deprecation warning on constructing {new.__name__}')
    ctx.equal((o.num_channels, o.sample_freq), (q.num_channels, q.sample_freq), f'{old.__name__} announced')
    ctx.equal(o.num_samples, q.num_samples, f'{old.__name__} number of samples')
    ctx.same(zoo.full(o, d['num']), zoo.full(q, d['num']), f'{old.__name__} result')
    ctx.label(old.__name__)
    ctx.interesting(p > 0)


@subcheck(P, 'beamformer', bf.scene(nf=(1, 2), lo=3, hi=5) .flatmap(lambda s: st.fixed_dictionaries({'s': st.just(s), 'cls': st.sampled_from(['BeamformerDamas', 'BeamformerDamasPlus', 'BeamformerClean', 'BeamformerOrth']), 'r_diag': st.booleans(), 'change': st.sampled_from(['none', 'r_diag', 'freq_data', 'steer'])})),
          quick=120, shards=3, rule='a parameter of the inner beamformer changes afterwards')
def beamformer(d, ctx):
    """The deprecated trait 'beamformer' hands over data, steering vector and diagonal removal."""
    steer_, c, freq = bf.setup(d['s'])
    inner = (ac.BeamformerEig if d['cls'] == 'BeamformerOrth' else ac.BeamformerBase)(freq_data=freq, steer=steer_, r_diag=d['r_diag'], cached=False)
    cls = getattr(ac, d['cls'])
    a = {'cached': False} | ({'eva_list': [-1]} if d['cls'] == 'BeamformerOrth' else {'n_iter': 5} if d['cls'] != 'BeamformerDamasPlus' else {'method': 'NNLS'})
    o = cls(**a)
    w = write(o, 'beamformer', inner)
    ctx.check(any('beamformer' in str(m.message) for m in w), 'no deprecation warning')
    ctx.check(o.beamformer is inner, 'the beamformer can be read back')

    def compare(text):
        q = cls(freq_data=inner.freq_data, steer=inner.steer, r_diag=inner.r_diag, **a)
        ctx.equal((o.freq_data is inner.freq_data, o.steer is inner.steer, o.r_diag), (True, True, inner.r_diag), f'traits {text}')
        ctx.equal(o.digest, q.digest, f'digest {text}')
        for f in d['s']['f']:
            i = int(np.flatnonzero(np.asarray(d['s']['f']) == f)[0])
            u, v = np.array(o.result[i]), np.array(q.result[i])
            ctx.close(u, v, f'result {text}', rtol=1e-9, scale=np.abs(v).max() or 1.0)

    compare('at first')
    if d['change'] == 'r_diag':
        inner.r_diag = not d['r_diag']
    elif d['change'] == 'freq_data':
        inner.freq_data = bf.import_csm(2 * c, d['s']['f'])
    elif d['change'] == 'steer':
        inner.steer = ac.SteeringVector(grid=steer_.grid, mics=steer_.mics, env=steer_.env, steer_type='inverse')
    compare(f'after {d["change"]}')
    ctx.label(d['cls'])
    ctx.interesting(d['change'] != 'none')


@subcheck(P, 'calib', st.fixed_dictionaries({'n': st.integers(1, 30), 'c': st.integers(1, 4), 'seed': zoo.seeds, 'num': st.integers(1, 12), 'masked': st.booleans(), 'invalid': st.booleans(), 'start': st.integers(0, 5)}), quick=250, shards=1, rule='several channels')
def calib(d, ctx):
    """Calibration within TimeSamples equals a Calib block, and warns."""
    data = dat(d['n'], d['c'], d['seed'])
    fac = np.random.default_rng(d['seed'] + 1).uniform(0.5, 2, d['c'])
    masked = d['masked'] and d['start'] < d['n']
    inv = [0] if masked and d['invalid'] and d['c'] > 1 else []
    cls, a = (ac.MaskedTimeSamples, {'start': d['start'], 'invalid_channels': inv}) if masked else (ac.TimeSamples, {})
    o = cls(data=data, sample_freq=10.0, calib=ac.Calib(data=fac, invalid_channels=inv), **a)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        got = zoo.full(o, d['num'])
    ctx.check(any(issubclass(w.category, DeprecationWarning) for w in rec), 'no deprecation warning')
    keep = [i for i in range(d['c']) if i not in inv]
    want = zoo.full(ac.Calib(source=cls(data=data, sample_freq=10.0, **a), data=fac[keep]), d['num'])
    ctx.close(got, want, 'calibrated samples', rtol=1e-14)
    plain = cls(data=data, sample_freq=10.0, **a)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        zoo.full(plain, d['num'])
    ctx.check(not any(issubclass(w.category, DeprecationWarning) for w in rec), 'deprecation warning without calibration')
    ctx.interesting(d['c'] > 1)


@subcheck(P, 'basename', st.fixed_dictionaries({'k': st.integers(0, 1), 'file': st.booleans(), 'depth': st.integers(0, 2), 'seed': st.integers(0, 1)}), quick=60, rule='a file as source')
def basename(d, ctx):
    src = ac.TimeSamples(file=h5(ctx, d['seed'])) if d['file'] else ts()
    inner = src
    for _ in range(d['depth']):
        inner = ac.TimePower(source=inner)
    o = ac.MaskedTimeOut(source=inner) if d['k'] else ac.WriteWAV(source=inner, channels=[0])
    v, w = read(o, 'basename')
    ctx.check(bool(w), 'no deprecation warning')
    ctx.equal(v, src.basename, 'basename')
    if d['file']:
        ctx.equal(v, f't{d["seed"]}', 'name of the file')
        src.h5f.close()
    ctx.interesting(d['file'])
