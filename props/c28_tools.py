"""C28 helper tools, metrics and exchange formats are consistent."""

import warnings
from pathlib import PurePosixPath

import h5py
import numpy as np
from hypothesis import strategies as st

import acoular as ac
from acoular.tools import MetricEvaluator, bardata, barspectrum, c_air, find_basename, get_file_basename, return_result
from acoular.tools.helpers import synthetic
from acoular.tools.utils import mole_fraction_of_water_vapor
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C28'


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        return f(*a, **k), [str(w.message) for w in rec]


# ---------------------------------------------------------------- spectra

spectrum = st.fixed_dictionaries({'nf': st.integers(2, 600), 'df': st.sampled_from([1.0, 7.5, 50.0, 187.5]), 'dims': st.integers(0, 2), 'seed': zoo.seeds, 'full': st.booleans()})


def values(d):
    rng = np.random.default_rng(d['seed'])
    freqs = np.arange(d['nf']) * d['df'] if d['full'] else d['df'] * (3 + np.arange(d['nf']))
    return freqs, rng.uniform(0, 2, (d['nf'], *(3, 2)[: d['dims']]))


@subcheck(P, 'synthetic', st.fixed_dictionaries({'s': spectrum, 'num': st.sampled_from([0, 1, 3, 3, 2, 6]), 'rel': st.lists(fl(0, 1.2, 4), min_size=1, max_size=5), 'scalar': st.booleans(), 'on': st.booleans()}), quick=600, rule='a band with at least two lines')
def synth(d, ctx):
    freqs, data = values(d['s'])
    keep = data.copy()
    f = [float(freqs[0] + r * (freqs[-1] - freqs[0])) + 1e-3 for r in d['rel']]
    if d['on']:
        f = [float(freqs[min(int(r * len(freqs)), len(freqs) - 1)]) for r in d['rel']]
    if d['scalar']:
        f = f[:1]
    got, msg = quiet(synthetic, data, freqs, f[0] if d['scalar'] else f, d['num'])
    ctx.shape(got, (len(f), *data.shape[1:]), 'synthesised bands')
    most = 0
    for k, q in enumerate(f):
        if d['num'] == 0:
            above = [i for i, v in enumerate(freqs) if v >= q]
            want = data[above[0]] if above else np.zeros(data.shape[1:])
            ctx.same(got[k], want, f'line at {q} Hz')
            text = 'not in set of' if above and freqs[above[0]] != q else ('not in resolved' if not above else None)
        else:
            lo, hi = q * 2 ** (-0.5 / d['num']), q * 2 ** (0.5 / d['num'])
            if np.abs(freqs / lo - 1).min() < 1e-12 or np.abs(freqs / hi - 1).min() < 1e-12:
                continue
            inside = (freqs >= lo) & (freqs < hi)
            ctx.close(got[k], data[inside].sum(0), f'band at {q} Hz', rtol=1e-12)
            text = None if inside.any() else 'does not include'
            most = max(most, int(inside.sum()))
        if text:
            ctx.check(any(text in m for m in msg), f'no warning about {q} Hz')
    ctx.same(data, keep, 'the data after synthesis')
    ctx.interesting(most > 1 or d['num'] == 0)


NOMINAL = [31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000, 25000]


@subcheck(P, 'bars', st.fixed_dictionaries({'nf': st.integers(20, 800), 'df': st.sampled_from([2.0, 10.0, 20.0]), 'num': st.sampled_from([1, 3]), 'off': fl(-0.5, 0.5), 'seed': zoo.seeds, 'masked': st.sampled_from([-360, 0.5])}), quick=400, rule='more than two bands')
def bars(d, ctx):
    freqs = np.arange(d['nf']) * d['df']
    data = np.random.default_rng(d['seed']).uniform(0, 2, d['nf'])
    nominal = NOMINAL[:: 3 // d['num']]
    ep = 2 ** (0.5 / d['num'])
    full = [f for f in nominal if f / ep >= freqs[1] and f * ep <= freqs[-1]]
    if len(full) < 2:
        ctx.discard()
    (x, y, fc), _ = quiet(barspectrum, data, freqs, d['num'], False)
    fc = [float(v) for v in fc]
    ctx.check(fc == full or (fc[1:] == full and fc[0] == nominal[nominal.index(full[0]) - 1]), f'bands {fc}, complete ones {full}')
    ctx.equal([float(v) for v in x], fc, 'abscissa without bars')
    want = [data[(freqs >= f / ep) & (freqs < f * ep)].sum() for f in fc]
    ctx.close(y, want, 'levels without bars', rtol=1e-12)
    (bx, by, bfc), _ = quiet(barspectrum, data, freqs, d['num'], True, d['off'])
    ctx.equal([float(v) for v in bfc], fc, 'bands with bars')
    ctx.close(by, np.repeat(want, 2), 'levels with bars', rtol=1e-12)
    edges = [fc[0] / ep] + [(a * ep + b / ep) / 2 for a, b in zip(fc[:-1], fc[1:])] + [fc[-1] * ep]
    bx0 = np.array([v for a, b in zip(edges[:-1], edges[1:]) for v in (a, b)])
    ctx.close(bx, bx0 * 2 ** (d['off'] / d['num']), 'band borders', rtol=1e-12)
    # the same from given band values
    z = np.array(want)
    gx, gy = bardata(z, np.array(fc), d['num'], True, d['off'], d['masked'])
    ctx.close(gx, bx, 'bardata borders', rtol=1e-12)
    ctx.close(np.ma.getdata(gy), by, 'bardata values', rtol=1e-12)
    if d['masked'] > -360:
        ctx.equal(list(np.ma.getmaskarray(gy)), [bool(v <= d['masked']) for v in np.repeat(z, 2)], 'masked values')
    gx, gy = bardata(z, np.array(fc), d['num'], False)
    ctx.same(np.array(gx), np.array(fc), 'bardata without bars')
    ctx.same(np.array(gy), z, 'bardata values without bars')
    ctx.interesting(len(fc) > 2)


# ---------------------------------------------------------------- collecting, names

@subcheck(P, 'collect', st.fixed_dictionaries({'n': st.integers(1, 60), 'c': st.integers(1, 4), 'num': st.integers(1, 25), 'nmax': st.sampled_from([-1, 0, 1, 5, 7, 25, 59, 60, 61, 200]), 'rev': st.booleans(), 'seed': zoo.seeds}), quick=500, rule='several blocks')
def collect(d, ctx):
    data = np.random.default_rng(d['seed']).normal(size=(d['n'], d['c']))
    src = ac.TimeSamples(data=data, sample_freq=100.0)
    o = ac.PointSource(signal=ac.WNoiseGenerator(sample_freq=100.0, num_samples=d['n'], seed=1), mics=ac.MicGeom(pos_total=np.random.default_rng(d['seed']).normal(size=(3, d['c'])))) if d['rev'] else src
    want = zoo.full(o, 1)
    got = return_result(o, nmax=d['nmax'], num=d['num'])
    want = want[: d['nmax']] if d['nmax'] > 0 else want
    ctx.same(got, want, 'collected result')
    if not d['rev']:
        got[...] = 0
        ctx.same(src.data, data, 'the data of the source after the result has been overwritten')
        ctx.check(bool(np.abs(data).max() > 0), 'data')
    ctx.interesting(d['n'] > d['num'])


words = st.text('ab.-_ 1é', min_size=0, max_size=6)


@subcheck(P, 'names', st.fixed_dictionaries({'dirs': st.lists(st.sampled_from(['x', 'y.z', '..']), max_size=2), 'stem': words, 'ext': st.sampled_from(['', '.h5', '.xml', '.tar.gz']), 'alt': st.sampled_from(['void', 'other']), 'depth': st.integers(0, 3), 'named': st.booleans()}), quick=400, rule='a name with a suffix')
def names(d, ctx):
    name = '/'.join(d['dirs'] + [d['stem'] + d['ext']])
    want = PurePosixPath(name).name
    if '.' in want.strip('.') or (want.startswith('.') and want.count('.') > 1):
        head, _, tail = want.rpartition('.')
        if head and tail:
            want = head
    if want.strip('.') == '' or d['stem'] == '' or name.endswith('.'):
        want = PurePosixPath(name).stem
    ctx.equal(get_file_basename(name, d['alt']), want or d['alt'], f'basename of {name!r}')
    ctx.equal(get_file_basename('', d['alt']), d['alt'], 'basename of no file')

    # the name is that of the first object in the chain that has one
    class Named:
        basename = 'first'
        source = None

    class Link:
        def __init__(self, source):
            self.source = source

    o = Named() if d['named'] else Link(None)
    for _ in range(d['depth']):
        o = Link(o)
    ctx.equal(find_basename(o, d['alt']), 'first' if d['named'] else d['alt'], 'basename of a chain')
    src = ac.TimeSamples(data=np.zeros((3, 1)), sample_freq=1.0)
    chain = src
    for _ in range(d['depth']):
        chain = ac.TimePower(source=chain)
    ctx.equal(find_basename(chain, d['alt']), src.basename, 'basename of a processing chain')
    ctx.interesting(bool(d['ext']))


# ---------------------------------------------------------------- speed of sound

def vapor(h, t, p):
    return h * (1.00062 + 3.14e-8 * p + 5.6e-7 * t * t) * np.exp(1.2378847e-5 * t * t - 1.9121316e-2 * t + 33.93711047 - 6343.1645 / t) / p


@subcheck(P, 'speed', st.fixed_dictionaries({'t': st.one_of(fl(-3, 33, 2), fl(-3, 33, 2), st.sampled_from([0.0, 30.0])), 'h': fl(0, 100, 2), 'p': st.one_of(st.sampled_from([101325.0, 101325.0, 60000.0, 110000.0]), fl(55000, 115000, 1)), 'co2': st.one_of(fl(0, 1.1, 3), st.just(1.0))}), quick=600, rule='inside the range of validity')
def speed(d, ctx):
    t, h, p, c = d['t'], d['h'], d['p'], d['co2']
    xw = vapor(h / 100, t + 273.15, p)
    ctx.close(mole_fraction_of_water_vapor(h / 100, t + 273.15, p), xw, 'mole fraction of water vapor', rtol=1e-10)
    valid = 0 <= t <= 30 and 60000 <= p <= 110000 and xw <= 0.06 and c <= 1
    if abs(xw - 0.06) < 1e-9:
        ctx.discard()
    if not valid:
        try:
            v = c_air(t, h, p, c)
        except ValueError:
            return
        ctx.fail(f'outside the range of validity a speed of {v} is given')
    xc = c / 100
    want = (331.5024 + 0.603055 * t - 0.000528 * t**2 + (51.471935 + 0.1495874 * t - 0.000782 * t**2) * xw + (-1.82e-7 + 3.73e-8 * t - 2.93e-10 * t**2) * p
            + (-85.20931 - 0.228525 * t + 5.91e-5 * t**2) * xc - 2.835149 * xw**2 - 2.15e-13 * p**2 + 29.179762 * xc**2 + 0.000486 * xw * p * xc)
    ctx.close(c_air(t, h, p, c), want, 'speed of sound', rtol=1e-10)
    # close to that of an ideal gas
    ctx.check(abs(c_air(t, h, p, c) / (331.3 * np.sqrt(1 + t / 273.15)) - 1) < 0.02, 'speed of sound in humid air is near that of dry air')
    if c == 0.04 and p == 101325.0:
        ctx.equal(c_air(t, h), c_air(t, h, 101325, 0.04), 'defaults')
    ctx.interesting(True)


# ---------------------------------------------------------------- cylinder coordinates

points = st.fixed_dictionaries({'n': st.integers(1, 8), 'seed': zoo.seeds, 'Q': st.one_of(st.none(), zoo.seeds), 'scale': st.sampled_from([1e-3, 1.0, 50.0])})


def orthogonal(seed):
    q, r = np.linalg.qr(np.random.default_rng(seed).normal(size=(3, 3)))
    return q * np.sign(np.diag(r))


@subcheck(P, 'cylinder', points, quick=300, rule='a transformation matrix')
def cylinder(d, ctx):
    x = np.random.default_rng(d['seed']).normal(size=(3, d['n'])) * d['scale']
    q = None if d['Q'] is None else orthogonal(d['Q'])
    y = x if q is None else q @ x
    keep = x.copy()
    c = ac.cartToCyl(x) if q is None else ac.cartToCyl(x, q)
    ctx.shape(c, (3, d['n']), 'cylindrical coordinates')
    ctx.close(c[1] * np.cos(c[0]), y[0], 'x from cylindrical coordinates', rtol=1e-10, scale=d['scale'] * 5)
    ctx.close(c[1] * np.sin(c[0]), y[1], 'y from cylindrical coordinates', rtol=1e-10, scale=d['scale'] * 5)
    ctx.close(c[2], y[2], 'z', rtol=1e-10, scale=d['scale'] * 5)
    ctx.check(bool((c[1] >= 0).all() and (np.abs(c[0]) <= np.pi).all()), 'ranges of radius and angle')
    # back: either convention of the angle is a point of the same cylinder
    b = ac.cylToCart(c)
    ctx.close(np.hypot(b[0], b[1]), c[1], 'radius after transforming back', rtol=1e-10, scale=d['scale'] * 5)
    ctx.close(b[2], c[2], 'height after transforming back', rtol=1e-10, scale=d['scale'] * 5)
    for want in ((c[1] * np.cos(c[0]), c[1] * np.sin(c[0])), (c[1] * np.sin(c[0]), c[1] * np.cos(c[0]))):
        if np.allclose(b[:2], want, rtol=1e-9, atol=1e-9 * d['scale']):
            break
    else:
        ctx.fail('cylToCart gives another point')
    ctx.same(x, keep, 'argument after the transformation')
    ctx.interesting(q is not None)


@subcheck(P, 'cylinder_round_trip', points, quick=0, rule='every case')
def cylinder_round_trip(d, ctx):
    x = np.random.default_rng(d['seed']).normal(size=(3, d['n'])) * d['scale']
    ctx.close(ac.cylToCart(ac.cartToCyl(x)), x, 'position after a round trip through cylindrical coordinates', rtol=1e-9, scale=d['scale'])


# ---------------------------------------------------------------- metrics

@st.composite
def metric(draw):
    return {'ng': draw(st.integers(1, 40)), 'ns': draw(st.integers(1, 5)), 'nf': draw(st.integers(2, 4)), 'seed': draw(zoo.seeds), 'r': draw(st.sampled_from([0.05, 0.2, 0.6, 3.0])), 'adaptive': draw(st.booleans()), 'multi': draw(st.booleans()),
            'nearest': draw(st.booleans()), 'zeros': draw(st.booleans()), 'own': draw(st.sampled_from([True, True, False])), 'order': draw(st.permutations(['overall', 'specific', 'inverse']))}


def level(p):
    p = np.asarray(p, float)
    with np.errstate(divide='ignore'):
        return np.where(p > 4e-10 * 10 ** (-350 / 10), 10 * np.log10(np.where(p > 0, p, 1) / 4e-10), -350.0)


def metric_model(d, pos, tpos, data, target):
    r = np.full(d['ns'], d['r'] if d['own'] else 1.0)
    if d['adaptive'] and d['ns'] > 1:
        for i in range(d['ns']):
            near = min(np.linalg.norm(tpos[:, i] - tpos[:, j]) for j in range(d['ns']) if j != i)
            r[i] = min(r[i], near / 2)
    out = np.empty(target.shape)
    for f in range(d['nf']):
        rest = data[f].copy()
        for i in range(d['ns']):
            dist = np.hypot(pos[0] - tpos[0, i], pos[1] - tpos[1, i])
            inside = dist <= r[i]
            if not inside.any() and (d['nearest'] or not d['own']):
                inside[dist.argmin()] = True
            out[f, i] = rest[inside].sum()
            if not d['multi']:
                rest[inside] = 0
    return r, out


@subcheck(P, 'metrics', metric(), quick=500, shards=2, rule='several targets and overlapping or empty sectors')
def metrics(d, ctx):
    rng = np.random.default_rng(d['seed'])
    pos, tpos = rng.uniform(-1, 1, (3, d['ng'])), rng.uniform(-1, 1, (3, d['ns']))
    data, target = rng.uniform(0, 1, (d['nf'], d['ng'])), rng.uniform(0.1, 1, (d['nf'], d['ns']))
    if d['zeros']:
        data[rng.uniform(size=data.shape) < 0.6] = 0
    keep = data.copy()
    kw = {'sector': ac.CircSector(r=d['r'], default_nearest=d['nearest'])} if d['own'] else {}
    m = MetricEvaluator(data=data, target_data=target, grid=ac.ImportGrid(pos=pos), target_grid=ac.ImportGrid(pos=tpos), adaptive_sector_size=d['adaptive'], multi_assignment=d['multi'], **kw)
    r, part = metric_model(d, pos, tpos, data, target)
    want = {'overall': level(data.sum(1)) - level(target.sum(1)), 'specific': level(part) - level(target), 'inverse': level(part.sum(1)) - level(data.sum(1))}
    ctx.close([s.r for s in m.sectors], r, 'sector radii', rtol=1e-12)
    ctx.close([[s.x, s.y] for s in m.sectors], tpos[:2].T, 'sector centres', rtol=1e-12)
    for name in list(d['order']) + ['inverse', 'specific']:
        ctx.close(getattr(m, f'get_{name}_level_error')(), want[name], f'{name} level error', rtol=1e-9, atol=1e-8)
    ctx.same(data, keep, 'the data after the evaluation')
    if d['own']:
        ctx.equal(m.sector.r, d['r'], 'radius of the given sector')
    # mismatched shapes
    for bad in ({'data': data[:-1]}, {'grid': ac.ImportGrid(pos=rng.uniform(size=(3, d['ng'] + 1)))}, {'target_grid': ac.ImportGrid(pos=rng.uniform(size=(3, d['ns'] + 1)))}):
        args = {'data': data, 'target_data': target, 'grid': m.grid, 'target_grid': m.target_grid, 'sector': ac.CircSector(r=1.0), **bad}
        o = MetricEvaluator(**args)
        for name in d['order']:
            try:
                getattr(o, f'get_{name}_level_error')()
            except ValueError:
                continue
            ctx.fail(f'{name} level error for mismatched {list(bad)}')
    ctx.interesting(d['ns'] > 1)


# ---------------------------------------------------------------- AIAA benchmark files

@subcheck(P, 'aiaa', st.fixed_dictionaries({'nm': st.integers(1, 6), 'nf': st.integers(1, 9), 'n': st.integers(1, 40), 'sign': st.sampled_from([1, -1]), 'seed': zoo.seeds, 'single': st.booleans(), 'lib': st.sampled_from(['tables', 'h5py']), 'num': st.integers(1, 20), 'alias': st.booleans(), 'fs': st.sampled_from([48000.0, 51200, 1000.5])}),
          quick=120, shards=2, rule='several microphones')
def aiaa(d, ctx):
    ac.config.h5library = d['lib']
    rng = np.random.default_rng(d['seed'])
    t = 'f4' if d['single'] else 'f8'
    a = rng.normal(size=(d['nf'], d['nm'], d['nm'])) + 1j * rng.normal(size=(d['nf'], d['nm'], d['nm']))
    csm = a @ a.conj().swapaxes(1, 2)
    re, im = csm.real.astype(t), csm.imag.astype(t)
    csm = re + d['sign'] * 1j * im
    freqs = np.cumsum(rng.uniform(1, 50, d['nf']))
    pos = rng.normal(size=(d['nm'], 3))
    x = rng.normal(size=(d['n'], d['nm'])).astype(t)
    tacho = rng.normal(size=(d['n'], 1)).astype(t)
    name = ctx.path('aiaa.h5')
    with h5py.File(name, 'w') as h:
        g = h.create_group('CsmData')
        g.attrs['fftSign'] = np.int32(d['sign'])
        g['csmReal'], g['csmImaginary'] = re.transpose(1, 2, 0), im.transpose(1, 2, 0)
        g['binCenterFrequenciesHz'] = freqs.reshape((1, -1)) if d['alias'] else freqs
        g = h.create_group('MetaData/ArrayAttributes')
        g.attrs['microphoneCount'] = np.int32(d['nm'])
        g['microphonePositionsM'] = pos
        h['MicrophoneData/microphoneDataPa'] = x
        h['MicrophoneData/microphoneDataPa'].attrs['sampleRateHz'] = d['fs']
        h['TachoData/tachoDataV'] = tacho
        h['TachoData/tachoDataV'].attrs['sampleRateHz'] = d['fs']
    key = 'name' if d['alias'] else 'file'
    o = ac.aiaa.CsmAIAABenchmark(**{key: name})
    ctx.close(o.csm, csm, 'cross spectral matrix', rtol=1e-6 if d['single'] else 1e-14)
    ctx.equal(int(o.num_channels), d['nm'], 'number of channels')
    ctx.close(o.fftfreq(), freqs, 'frequencies', rtol=1e-14)
    ctx.equal(list(o.indices), list(range(d['nf'])), 'indices')
    ctx.equal(o.basename, 'aiaa', 'basename')
    ctx.close(np.linalg.eigvalsh(o.csm), o.eva, 'eigenvalues', rtol=1e-5, atol=1e-4 if d['single'] else 1e-9)
    o.h5f.close()
    m = ac.aiaa.MicAIAABenchmark(**{'from_file' if d['alias'] else 'file': name})
    ctx.same(np.array(m.pos), pos.T.copy(), 'microphone positions')
    for cls, want in ((ac.aiaa.TimeSamplesAIAABenchmark, x), (ac.aiaa.TriggerAIAABenchmark, tacho)):
        o = cls(**{key: name})
        ctx.equal((int(o.num_samples), int(o.num_channels), float(o.sample_freq)), (*want.shape, float(d['fs'])), f'{cls.__name__} announced')
        ctx.same(zoo.full(o, d['num']), want, f'{cls.__name__} samples')
        o.h5f.close()
    ctx.interesting(d['nm'] > 1)
