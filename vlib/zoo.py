"""JSON descriptions of acoular objects, their builder, and strategies that generate them.

A spec is ``{'k': class name, 'a': {trait: value}}``.  Values are plain JSON, nested specs, lists of
specs, ``{'arr': ...}`` array descriptions or ``{'tup': [...]}`` tuples.
"""

import copy

import numpy as np
from hypothesis import strategies as st

import acoular as ac

MODULES = [ac]


# ------------------------------------------------------------------------------------- arrays
def arr(d):
    """Materialise an array description (deterministic)."""
    if 'lit' in d:
        return np.array(d['lit'], dtype=d.get('dtype', float))
    shape = tuple(d['shape'])
    r = np.random.RandomState(d.get('seed', 0))
    kind = d['arr']
    s = d.get('scale', 1.0)
    if kind == 'normal':
        a = r.standard_normal(shape) * s
    elif kind == 'cnormal':
        a = (r.standard_normal(shape) + 1j * r.standard_normal(shape)) * s
    elif kind == 'int':
        a = r.randint(-9, 10, shape).astype(float) * s
    elif kind == 'uniform':
        a = r.uniform(-s, s, shape)
    elif kind == 'pos':
        a = r.uniform(0.1, 1.0, shape) * s
    elif kind == 'zeros':
        a = np.zeros(shape)
    elif kind == 'const':
        a = np.full(shape, s)
    elif kind == 'ramp':
        a = np.arange(int(np.prod(shape)), dtype=float).reshape(shape) * s
    elif kind == 'impulse':
        a = np.zeros(shape)
        if a.size:
            a[r.randint(0, shape[0])] = s
    elif kind == 'psd':
        q = r.standard_normal((2, shape[0], shape[1], d['rank']))
        q = q[0] + 1j * q[1]
        a = q @ q.conj().transpose(0, 2, 1) / d['rank'] + d.get('noise', 0.0) * np.eye(shape[1])
        a = (a + a.conj().transpose(0, 2, 1)) * (s / 2)
    else:
        raise ValueError(kind)
    if 'poke' in d and a.size:
        i, delta = d['poke']
        a.flat[i % a.size] += delta * (1.0 + abs(a.flat[i % a.size]))
    if d.get('dtype'):
        a = a.astype(d['dtype'])
    if d.get('order') == 'F':
        a = np.asfortranarray(a)
    return a


def is_spec(v):
    return isinstance(v, dict) and 'k' in v


def conv(v, ctx=None):
    if isinstance(v, dict):
        if 'k' in v:
            return build(v, ctx)
        if 'arr' in v or 'lit' in v:
            return arr(v)
        if 'tup' in v:
            return tuple(v['tup'])
        if 'points' in v:
            return {float(t): tuple(p) for t, p in v['points']}
        return v
    if isinstance(v, list):
        return [conv(x, ctx) for x in v]
    return v


def build(spec, ctx=None):
    cls = getattr(ac, spec['k'])
    return cls(**{k: conv(v, ctx) for k, v in spec['a'].items()})


def apply(obj, path, value, ctx=None):
    """Set the trait at ``path`` (list of attribute names / list indices) of a live object tree."""
    for p in path[:-1]:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    v = conv(value, ctx)
    p = path[-1]
    if isinstance(p, int):
        obj[p] = v
    else:
        setattr(obj, p, v)


def patched(spec, path, value):
    """The same change on the spec."""
    spec = copy.deepcopy(spec)
    s = spec
    for p in path[:-1]:
        s = s[p] if isinstance(p, int) else s['a'][p]
    if isinstance(path[-1], int):
        s[path[-1]] = value
    else:
        s['a'][path[-1]] = value
    return spec


# ------------------------------------------------------------------------------------- helpers
def S(k, **a):
    return {'k': k, 'a': a}


def fl(lo, hi, nd=3):
    """Rounded floats: readable, and shrinking toward lo."""
    m = 10**nd
    return st.integers(round(lo * m), round(hi * m)).map(lambda i: i / m)


seeds = st.integers(0, 2**16)
FS = [1.0, 10.0, 51200.0, 8000.0, 44100.0]


@st.composite
def arrays(draw, shape, kinds=('normal', 'int', 'ramp', 'uniform', 'impulse'), scales=(1.0,), **kw):
    return {'arr': draw(st.sampled_from(kinds)), 'shape': list(shape), 'seed': draw(seeds), 'scale': draw(st.sampled_from(scales)), **kw}


def collect(gen, num, limit=100000):
    """Copy all blocks of a generator (the documented way to consume one)."""
    out = []
    for b in gen.result(num):
        out.append(np.array(b, copy=True))
        if len(out) > limit:
            raise AssertionError('endless generator')
    return out


def cat(blocks, nc=None):
    if not blocks:
        return np.zeros((0, nc or 0))
    return np.concatenate(blocks, axis=0)


def full(gen, num=64):
    return cat(collect(gen, num))


# ------------------------------------------------------------------------------------- geometry
@st.composite
def mics(draw, n=None, lo=1, hi=6, invalid=True, spread=1.0):
    n = draw(st.integers(lo, hi)) if n is None else n
    extra = draw(st.integers(0, 2)) if invalid else 0
    pos = {'arr': 'uniform', 'shape': [3, n + extra], 'seed': draw(seeds), 'scale': spread}
    a = {'pos_total': pos}
    if extra:
        inv = draw(st.lists(st.integers(0, n + extra - 1), min_size=extra, max_size=extra, unique=True))
        a['invalid_channels'] = inv
    return S('MicGeom', **a)


@st.composite
def plain_env(draw):
    return S('Environment', c=draw(fl(200, 500, 1)))


@st.composite
def env(draw, general=False):
    k = draw(st.integers(0, 2 if general else 1))
    if k == 0:
        return draw(plain_env())
    if k == 1:
        return S('UniformFlowEnvironment', c=draw(fl(300, 400, 1)), ma=draw(fl(0, 0.6)), fdv={'lit': draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, -1], [0.6, 0.8, 0]]))})
    return draw(general_env())


@st.composite
def flowfield(draw):
    k = draw(st.integers(0, 2))
    if k == 0:
        return S('SlotJet', v0=draw(fl(0, 60, 1)), origin={'lit': [draw(fl(-1, 1)), draw(fl(-0.5, 0.5)), draw(fl(0.2, 1))]}, B=draw(fl(0.1, 0.5)), l=draw(fl(2, 8, 1)))
    if k == 1:
        return S('OpenJet', v0=draw(fl(0, 60, 1)), origin={'lit': [draw(fl(-1, 0)), draw(fl(-0.3, 0.3)), draw(fl(0.2, 1))]}, D=draw(fl(0.1, 0.6)), l=draw(fl(3, 8, 1)))
    return S('RotatingFlow', rps=draw(fl(-10, 10, 1)), v0=draw(fl(0, 20, 1)), origin={'lit': [draw(fl(-0.2, 0.2)), 0.0, 0.0]})


@st.composite
def general_env(draw):
    return S('GeneralFlowEnvironment', c=draw(fl(330, 350, 1)), ff=draw(flowfield()), N=draw(st.sampled_from([20, 30, 50])), Om=draw(st.sampled_from([float(np.pi), 1.5])))


# ------------------------------------------------------------------------------------- signals
@st.composite
def signal(draw, n, fs, kinds=('WNoise', 'PNoise', 'FiltWNoise', 'Sine', 'Generic'), noise_only=False):
    k = draw(st.sampled_from([x for x in kinds if not noise_only or 'Noise' in x]))
    base = {'sample_freq': fs, 'num_samples': n}
    if k == 'Sine':
        return S('SineGenerator', **base, freq=round(draw(fl(0.001, 0.45, 4)) * fs, 4), phase=draw(fl(-7, 7)), amplitude=draw(fl(-5, 5)))
    if k == 'Generic':
        m = draw(st.integers(1, 2 * n + 2))
        src = S('TimeSamples', data=draw(arrays([m, draw(st.integers(1, 2))])), sample_freq=fs)
        return S('GenericSignalGenerator', source=src, num_samples=n, amplitude=draw(fl(-3, 3)), loop_signal=draw(st.booleans()))
    base.update(rms=draw(fl(0, 4)), seed=draw(st.integers(0, 1000)))
    if k == 'WNoise':
        return S('WNoiseGenerator', **base)
    if k == 'PNoise':
        return S('PNoiseGenerator', **base, depth=draw(st.integers(1, 16)))
    ar, ma = draw(st.sampled_from([([], []), ([1.0, -0.5], []), ([], [1.0, 0.5, 0.25]), ([1.0, -0.3, 0.02], [0.5, 0.5])]))
    return S('FiltWNoiseGenerator', **base, ar={'lit': ar}, ma={'lit': ma})


@st.composite
def traj(draw, dur=1.0, forward=False):
    n = draw(st.integers(2, 5))
    z = draw(fl(2, 5, 1))
    pts, t, x = [], -1.0, -3.0
    for _ in range(n):
        # forward: (nearly) straight on in x, so that the velocity has a positive x component everywhere
        x = round(x + 1.0, 2) if forward else draw(fl(-3, 3, 2))
        pts.append([round(t, 3), [x, draw(fl(-3, 3, 2)), round(z + draw(fl(-0.5, 0.5, 2)), 2)]])
        t += 1.0 if forward else draw(st.sampled_from([0.5, 1.0, 2.0]))
    if forward:
        for i, p in enumerate(pts):
            p[0] = round(-1.0 + i * (dur + 1.5) / (n - 1), 4)
    else:
        pts[-1][0] = max(pts[-1][0], dur + 0.5)
    return S('Trajectory', points={'points': pts})


# ------------------------------------------------------------------------------------- sources
def timesamples(n, c, fs):
    return arrays([n, c]).map(lambda d: S('TimeSamples', data=d, sample_freq=fs))


@st.composite
def array_source(draw, n=None, c=None, fs=None, nlo=1, nhi=80, clo=1, chi=4):
    n = draw(st.integers(nlo, nhi)) if n is None else n
    c = draw(st.integers(clo, chi)) if c is None else c
    fs = draw(st.sampled_from(FS)) if fs is None else fs
    return draw(timesamples(n, c, fs))


@st.composite
def point_source(draw, n, c, fs, kinds=('PointSource', 'SphericalHarmonicSource', 'PointSourceDipole', 'LineSource', 'PointSourceConvolve', 'MovingPointSource', 'MovingPointSourceDipole', 'MovingLineSource')):
    """Sources in front of an array; the delays stay shorter than the signal."""
    k = draw(st.sampled_from(kinds))
    e = draw(env()) if 'Moving' not in k else draw(plain_env())
    m = draw(mics(n=c))
    a = dict(signal=draw(signal(n, fs)), mics=m, env=e, loc={'tup': [draw(fl(-1, 1, 2)), draw(fl(-1, 1, 2)), draw(fl(1.2, 4, 2))]})
    if k == 'PointSourceConvolve':
        kc = draw(st.sampled_from([1, c]))
        a['kernel'] = draw(arrays([draw(st.integers(1, 12)), kc]))
        a.pop('env')
        return S(k, **a)
    a['up'] = draw(st.sampled_from([1, 2, 16]))
    # start_t - start >= 0: a source that starts after the recording, never reads past the end
    # (in samples; the other direction is covered by the source properties)
    a['start_t'] = round(draw(st.integers(0, max(0, n // 4))) / fs, 6)
    if k == 'PointSource':
        a['prepadding'] = draw(st.sampled_from(['loop', 'zeros']))
    if k == 'SphericalHarmonicSource':
        lo = draw(st.integers(0, 2))
        a.update(lOrder=lo, alpha={'arr': 'normal', 'shape': [(lo + 1) ** 2], 'seed': draw(seeds)}, direction={'tup': [1.0, 0.0, 0.0]})
    if 'Dipole' in k:
        a['direction'] = {'tup': draw(st.sampled_from([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.3, -0.4, 1.2]]))}
    if 'Moving' in k:
        a['trajectory'] = draw(traj(dur=n / fs))
        a['conv_amp'] = draw(st.booleans())
    if 'Line' in k:
        ns = draw(st.integers(1, 3))
        if 'Moving' in k:  # one sample ahead (known finding of C12): would run past the end of its signal
            a['start_t'] = max(a['start_t'], round(1 / fs, 6))
        a.update(direction={'tup': draw(st.sampled_from([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [1.0, 2.0, 0.5]]))}, length=draw(fl(0.1, 1.5, 2)), num_sources=ns, source_strength={'arr': 'pos', 'shape': [ns], 'seed': draw(seeds)}, coherence='coherent')
        a['signal'] = draw(signal(n, fs, noise_only=True))
    return S(k, **a)


@st.composite
def uncorrelated(draw, n, c, fs):
    return S('UncorrelatedNoiseSource', signal=draw(signal(n, fs, kinds=('WNoise', 'PNoise'))), mics=draw(mics(n=c)), seed=draw(st.one_of(st.just({'lit': [], 'dtype': 'uint32'}), st.just({'lit': list(range(5, 5 + c)), 'dtype': 'uint32'}))))


def ps_fs(n):
    """Sampling rates for which the propagation delays of ``point_source`` stay within n samples."""
    return st.sampled_from([float(n), 3.0 * n, 6.0 * n])


@st.composite
def sample_source(draw, nlo=1, nhi=80, clo=1, chi=4, only=None, n=None, c=None):
    """Any source of samples. Returns (spec, n, c, fs)."""
    k = only or draw(st.sampled_from(['array', 'array', 'point', 'noise', 'mix']))
    n = draw(st.integers(nlo, nhi)) if n is None else n
    c = draw(st.integers(clo, chi)) if c is None else c
    if k == 'array':
        fs = draw(st.sampled_from(FS))
        return draw(timesamples(n, c, fs)), n, c, fs
    n = max(n, 4)
    fs = draw(ps_fs(n))
    if k == 'point':
        s = draw(point_source(n, c, fs))
        if s['k'] == 'PointSourceConvolve':
            return s, n + s['a']['kernel']['shape'][0] - 1, c, fs
        return s, n, c, fs
    if k == 'noise':
        return draw(uncorrelated(n, c, fs)), n, c, fs
    subs = [draw(st.one_of(timesamples(n, c, fs), point_source(n, c, fs, kinds=('PointSource', 'PointSourceDipole', 'MovingPointSource')))) for _ in range(draw(st.integers(1, 3)))]
    w = draw(st.one_of(st.just({'lit': []}), st.just({'arr': 'normal', 'shape': [len(subs)], 'seed': draw(seeds)})))
    return S('SourceMixer', sources=subs, weights=w), n, c, fs


def masked(n, start, stop):
    return len(range(*slice(start, stop).indices(n)))


TIMEBLOCKS = ['MaskedTimeOut', 'ChannelMixer', 'Mixer', 'TimePower', 'TimeCumAverage', 'TimeReverse', 'FiltOctave', 'FiltFiltOctave',
              'TimeExpAverage', 'FiltFreqWeight', 'OctaveFilterBank', 'TimeConvolve', 'Average', 'Cache', 'Calib', 'IRFFT', 'TimeOutPass']


@st.composite
def time_block(draw, src, n, c, fs, kinds=None):
    """Wrap (src, n, c, fs) in one processing block. Returns the same kind of tuple."""
    k = draw(st.sampled_from(kinds or TIMEBLOCKS[:-1]))
    if k == 'MaskedTimeOut':
        start = draw(st.integers(0, n - 1))
        stop = draw(st.one_of(st.none(), st.integers(start + 1, n + 3)))
        inv = draw(st.lists(st.integers(0, c - 1), max_size=c - 1, unique=True)) if c > 1 else []
        return S(k, source=src, start=start, stop=stop, invalid_channels=inv), masked(n, start, stop), c - len(inv), fs
    if k == 'ChannelMixer':
        w = draw(st.sampled_from([{'lit': []}, {'lit': [0.5]}, {'arr': 'normal', 'shape': [c], 'seed': draw(seeds)}]))
        return S(k, source=src, weights=w), n, 1, fs
    if k == 'Mixer':
        others = [draw(timesamples(n, c, fs)) for _ in range(draw(st.integers(0, 2)))]
        return S(k, source=src, sources=others), n, c, fs
    if k in ('TimePower', 'TimeCumAverage', 'TimeReverse', 'Cache'):
        return S(k, source=src), n, c, fs
    if k in ('FiltOctave', 'FiltFiltOctave'):
        if k == 'FiltFiltOctave' and n < 45:
            k = 'FiltOctave'
        a = {'band': round(draw(fl(0.02, 0.2, 4)) * fs, 5), 'fraction': draw(st.sampled_from(['Octave', 'Third octave'])), 'order': draw(st.integers(1, 4))}
        return S(k, source=src, **a), n, c, fs
    if k == 'TimeExpAverage':
        return S(k, source=src, weight=draw(st.sampled_from('FSI'))), n, c, fs
    if k == 'FiltFreqWeight':
        return S(k, source=src, weight=draw(st.sampled_from('ACZ'))), n, c, fs
    if k == 'OctaveFilterBank':
        hmax = int(np.floor(10 * np.log10(0.3 * fs)))
        frac = draw(st.sampled_from(['Octave', 'Third octave']))
        lb = hmax - draw(st.integers(1, 6))
        hb = draw(st.integers(lb + 1, hmax + 1))
        nb = len(range(lb, hb, 3 if frac == 'Octave' else 1))
        return S(k, source=src, lband=lb, hband=hb, fraction=frac), n, c * nb, fs
    if k == 'TimeConvolve':
        L = draw(st.integers(1, 40))
        return S(k, source=src, kernel=draw(arrays([L, draw(st.sampled_from([1, c]))]))), n + L - 1, c, fs
    if k == 'Average':
        nav = draw(st.integers(1, max(1, n)))
        return S(k, source=src, num_per_average=nav), n // nav, c, fs / nav
    if k == 'Calib':
        return S(k, source=src, data={'arr': 'normal', 'shape': [c], 'seed': draw(seeds)}), n, c, fs
    if k == 'IRFFT':
        bs = draw(st.sampled_from([2, 4, 6, 8]))
        if n < bs:
            return S('TimePower', source=src), n, c, fs
        return S(k, source=S('RFFT', source=src, block_size=bs)), n // bs * bs, c, fs
    raise ValueError(k)


def root_channels(spec):
    s = spec
    while 'source' in s['a']:
        s = s['a']['source']
    return s


@st.composite
def pipeline(draw, depth=(1, 3), nlo=1, nhi=80, kinds=None, clo=1, chi=4, src=None):
    t = draw(sample_source(nlo=nlo, nhi=nhi, clo=clo, chi=chi, only=src))
    names = [t[0]['k']]
    for _ in range(draw(st.integers(*depth))):
        if t[1] < 1:
            break
        ks = kinds or TIMEBLOCKS[:-1]
        # the calibration block validates itself against the first source of the chain
        ks = [k for k in ks if k != 'Calib' or t[2] == _nch(t[0])]
        t2 = draw(time_block(*t, kinds=ks))
        t = t2
        names.append(t[0]['k'])
    return {'spec': t[0], 'n': t[1], 'c': t[2], 'fs': t[3], 'names': names}


def _nch(spec):
    """Number of channels of the innermost source (following ``source`` through InOut blocks only)."""
    s = spec
    while s['k'] in ('Average', 'Cache', 'Calib'):
        s = s['a']['source']
    return _channels(s)


def _channels(s):
    a, k = s['a'], s['k']
    if k == 'TimeSamples':
        return a['data']['shape'][1]
    if k == 'SourceMixer':
        return _channels(a['sources'][0])
    if 'mics' in a:
        return a['mics']['a']['pos_total']['shape'][1] - len(a['mics']['a'].get('invalid_channels', []))
    if k == 'ChannelMixer':
        return 1
    if k == 'MaskedTimeOut':
        return _channels(a['source']) - len(a['invalid_channels'])
    if k == 'OctaveFilterBank':
        return _channels(a['source']) * len(range(a['lband'], a['hband'], 3 if a['fraction'] == 'Octave' else 1))
    if k == 'RFFT':
        return _channels(a['source'])
    return _channels(a['source'])


# ------------------------------------------------------------------------------------- grids
@st.composite
def rect_grid(draw, maxn=4, z=(0.8, 3.0)):
    """A 2D grid with at most maxn points per side, the increment divides the extent."""
    inc = draw(st.sampled_from([0.25, 0.5, 0.2]))
    nx, ny = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    x0, y0 = draw(fl(-1, 0.5, 2)), draw(fl(-1, 0.5, 2))
    return S('RectGrid', x_min=x0, x_max=round(x0 + (nx - 1) * inc, 6), y_min=y0, y_max=round(y0 + (ny - 1) * inc, 6), z=draw(fl(*z, 2)), increment=inc)


@st.composite
def rect_grid3d(draw, maxn=3):
    inc = [draw(st.sampled_from([0.25, 0.5])) for _ in range(3)]
    n = [draw(st.integers(1, maxn)) for _ in range(3)]
    o = [draw(fl(-1, 0.5, 2)), draw(fl(-1, 0.5, 2)), draw(fl(0.8, 2, 2))]
    a = {}
    for i, ax in enumerate('xyz'):
        a[f'{ax}_min'], a[f'{ax}_max'] = o[i], round(o[i] + (n[i] - 1) * inc[i], 6)
    return S('RectGrid3D', **a, increment={'lit': inc} if draw(st.booleans()) else 0.5)


@st.composite
def line_grid(draw):
    return S('LineGrid', loc={'tup': [draw(fl(-1, 1, 2)), draw(fl(-1, 1, 2)), draw(fl(0.8, 2, 2))]}, direction={'tup': draw(st.sampled_from([[1.0, 0.0, 0.0], [0.5, -1.0, 0.25], [0.0, 3.0, 0.0]]))},
             length=draw(fl(0.2, 2, 2)), num_points=draw(st.integers(2, 6)))


@st.composite
def import_grid(draw, maxn=8):
    n = draw(st.integers(1, maxn))
    pos = np.round(np.random.RandomState(draw(seeds)).uniform(-1, 1, (3, n)), 3)
    pos[2] = np.abs(pos[2]) + 0.8
    return S('ImportGrid', pos={'lit': pos.tolist()})


@st.composite
def any_grid(draw):
    return draw(st.one_of(rect_grid(), rect_grid3d(), line_grid(), import_grid()))


@st.composite
def steer(draw, nm=None, lo=2, hi=6, g=None, e=None, refs=True, types=None):
    a = dict(grid=draw(g if g is not None else any_grid()), mics=draw(mics(n=nm, lo=lo, hi=hi, invalid=nm is None)), env=draw(e if e is not None else plain_env()),
             steer_type=draw(st.sampled_from(types or ['true level', 'true location', 'classic', 'inverse'])))
    if refs and draw(st.booleans()):
        a['ref'] = draw(st.sampled_from([1.0, 0.3, 0.0, {'lit': [0.1, -0.2, 0.3]}]))
    return S('SteeringVector', **a)


def nmics(steerspec):
    m = steerspec['a']['mics']['a']
    return m['pos_total']['shape'][1] - len(m.get('invalid_channels', []))
