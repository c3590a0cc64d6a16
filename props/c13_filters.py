"""C13 filters and convolutions equal the reference filtering of the whole signal."""

import numpy as np
from hypothesis import strategies as st
from scipy import signal as sg

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C13'
nums = st.one_of(st.integers(1, 40), st.sampled_from([64, 128, 1000]))
FRAC = {'Octave': 1, 'Third octave': 3}
FFCOR = {6: 1.01, 5: 1.012, 4: 1.016, 3: 1.022, 2: 1.036, 1: 1.083}  # zero-phase filters: two passes
TAU = {'F': 0.125, 'S': 1.0, 'I': 0.035}


def ratio(order, fraction):
    """Half the logarithmic width of a band filter whose noise bandwidth is that of the ideal band."""
    b = np.pi / (2 * order)
    g = 2.0 ** (1 / (2 * fraction))
    width = (g - 1 / g) * np.sin(b) / b
    return (width + np.sqrt(width**2 + 4)) / 2


def band_sos(band, fs, order, fraction, twice=False):
    a = ratio(order, fraction)
    if twice:
        a *= FFCOR.get(order, 1.0) ** (3 / fraction)
    return sg.butter(order, np.array([band / a, band * a]) / (fs / 2), 'bandpass', output='sos')


@st.composite
def src(draw, nlo=1, nhi=300, c=None, fs=None):
    n = draw(st.one_of(st.integers(nlo, max(nlo, 40)), st.integers(nlo, nhi)))
    c = draw(st.integers(1, 4)) if c is None else c
    fs = draw(st.sampled_from([100.0, 8000.0, 44100.0, 51200.0])) if fs is None else fs
    return S('TimeSamples', data=draw(zoo.arrays([n, c], kinds=('normal', 'impulse', 'int', 'uniform'))), sample_freq=fs)


def data(spec):
    return np.array(zoo.arr(spec['a']['data']), dtype=float)


@st.composite
def filt(draw):
    k = draw(st.sampled_from(['FiltOctave', 'FiltOctave', 'FiltFiltOctave', 'FiltFiltOctave', 'TimeExpAverage', 'FiltFreqWeight', 'OctaveFilterBank']))
    s = draw(src(nlo=45 if k == 'FiltFiltOctave' else 1))
    fs = s['a']['sample_freq']
    a = {}
    if k in ('FiltOctave', 'FiltFiltOctave'):
        frac = draw(st.sampled_from(list(FRAC)))
        order = draw(st.integers(1, 6)) if k == 'FiltOctave' else draw(st.integers(1, 4))
        a = dict(band=round(draw(fl(0.01, 0.3, 4)) * fs, 5), fraction=frac, order=order)
        for key in draw(st.lists(st.sampled_from(['fraction', 'order']), max_size=1)):
            a.pop(key)
    elif k == 'TimeExpAverage':
        a = dict(weight=draw(st.sampled_from('FSI')))
    elif k == 'FiltFreqWeight':
        a = dict(weight=draw(st.sampled_from('ACZ')))
    else:
        hmax = int(np.floor(10 * np.log10(0.33 * fs)))
        lb = draw(st.integers(max(1, hmax - 12), hmax))
        a = dict(lband=lb, hband=draw(st.integers(lb + 1, hmax + 1)), fraction=draw(st.sampled_from(list(FRAC))))
    return {'spec': S(k, source=s, **a), 'num': draw(nums)}


@subcheck(P, 'filters', filt(), quick=900, shards=3, rule='the filtered signal is not zero and several blocks are needed')
def filters_(d, ctx):
    spec, num = d['spec'], d['num']
    k, a = spec['k'], spec['a']
    x, fs = data(a['source']), a['source']['a']['sample_freq']
    n, c = x.shape
    obj = zoo.build(spec)
    rtol = 1e-9
    if k == 'FiltOctave':
        ref = sg.sosfilt(band_sos(a['band'], fs, a.get('order', 3), FRAC[a.get('fraction', 'Octave')]), x, axis=0)
    elif k == 'FiltFiltOctave':
        order = a.get('order', 2)
        g = ratio(order, FRAC[a.get('fraction', 'Octave')]) * FFCOR[order] ** (3 / FRAC[a.get('fraction', 'Octave')])
        if a['band'] * g > 0.49 * fs:
            ctx.discard()
        sos = band_sos(a['band'], fs, order, FRAC[a.get('fraction', 'Octave')], True)
        ref = np.array([sg.sosfiltfilt(sos, x[:, j]) for j in range(c)]).T
        rtol = 1e-8
    elif k == 'TimeExpAverage':
        al = -np.expm1(-1 / (TAU[a['weight']] * fs))
        ref, y = [], np.zeros(c)
        for row in x:
            y = y + al * (row - y)
            ref.append(y)
        ref = np.array(ref)
    elif k == 'FiltFreqWeight':
        ref = x if a['weight'] == 'Z' else sg.sosfilt(obj.sos, x, axis=0)  # its response is checked in "weighting"
    else:
        f = FRAC[a['fraction']]
        idx = range(a['lband'], a['hband'], {1: 3, 3: 1}[f])
        bands = [10 ** (i / 10) for i in idx]
        ref = np.hstack([sg.sosfilt(band_sos(b, fs, 3, f), x, axis=0) for b in bands])
        ctx.close(np.array(obj.bands), np.array(bands), 'bands', rtol=1e-12)
        ctx.equal(obj.num_bands, len(bands), 'num_bands')
        ctx.label('several bands' if len(bands) > 1 else 'one band')
    out = zoo.cat(zoo.collect(obj, num), ref.shape[1])
    ctx.shape(out, ref.shape, f'{k}: result({num})')
    ctx.close(out, ref, f'{k}: result({num})', rtol=rtol, scale=np.abs(x).max())
    ctx.equal((obj.num_samples, obj.num_channels, obj.sample_freq), (*ref.shape, fs), f'{k}: announced (num_samples, num_channels, sample_freq)')
    ctx.label(k)
    ctx.interesting(n > num and np.abs(ref).max() > 1e-6)


# ------------------------------------------------------------------------------ designs
def a_weight(f):
    """IEC 61672-1, Annex E."""
    f1, f2, f3, f4 = 20.598997, 107.65265, 737.86223, 12194.217
    return 10 ** (1.9997 / 20) * f4**2 * f**4 / ((f**2 + f1**2) * np.sqrt((f**2 + f2**2) * (f**2 + f3**2)) * (f**2 + f4**2))


def c_weight(f):
    f1, f4 = 20.598997, 12194.217
    return 10 ** (0.0619 / 20) * f4**2 * f**2 / ((f**2 + f1**2) * (f**2 + f4**2))


@st.composite
def weighting(draw):
    return {'fs': draw(st.sampled_from([8000.0, 16000.0, 32000.0, 44100.0, 48000.0, 51200.0, 65536.0, 102400.0])), 'weight': draw(st.sampled_from('ACZ')), 'rel': draw(fl(0.001, 0.49, 5))}


@subcheck(P, 'weighting', weighting(), quick=300, rule='A or C weighting')
def weighting_(d, ctx):
    """Magnitude response of the frequency weightings, at the frequency the bilinear transform maps to."""
    fs, w = d['fs'], d['weight']
    f = d['rel'] * fs
    obj = ac.FiltFreqWeight(weight=w, source=ac.TimeSamples(data=np.zeros((1, 1)), sample_freq=fs))
    _, h = sg.sosfreqz(obj.sos, worN=[f], fs=fs)
    fa = fs / np.pi * np.tan(np.pi * f / fs)
    ref = {'A': a_weight, 'C': c_weight, 'Z': lambda f: 1.0}[w](fa)
    ctx.close(np.abs(h[0]), ref, f'{w}-weighting at {f} Hz', rtol=2e-3, scale=max(ref, 1e-3))
    ctx.interesting(w != 'Z')


@st.composite
def octave(draw):
    return {'rel': draw(fl(0.005, 0.1, 4)), 'order': draw(st.integers(2, 6)), 'fraction': draw(st.sampled_from(list(FRAC))), 'k': draw(st.sampled_from(['FiltOctave', 'FiltFiltOctave']))}


@subcheck(P, 'bandwidth', octave(), quick=150, rule='always')
def bandwidth_(d, ctx):
    """White noise passes a band filter with the power of the band: the noise bandwidth is nominal."""
    fs = 1.0
    fr = FRAC[d['fraction']]
    obj = getattr(ac, d['k'])(source=ac.TimeSamples(data=np.zeros((1, 1)), sample_freq=fs), band=d['rel'], order=d['order'], fraction=d['fraction'])
    w, h = sg.sosfreqz(obj.sos, worN=2**17, fs=fs)
    p = np.abs(h) ** (2 if d['k'] == 'FiltOctave' else 4)
    bw = p.sum() * (w[1] - w[0])
    g = 2 ** (1 / (2 * fr))
    ctx.close(bw, d['rel'] * (g - 1 / g), f'noise bandwidth of {d}', rtol=0.06)
    edges = np.abs(sg.sosfreqz(obj.sos, worN=[d['rel'], d['rel'] / g**3, d['rel'] * g**3], fs=fs)[1])
    ctx.check(abs(edges[0] - 1) < 0.06, f'gain at the centre is {edges[0]}')
    ctx.check(edges[1] < 0.5 and edges[2] < 0.5, f'gain one and a half bands away is {edges[1:]}')
    ctx.interesting(True)


@st.composite
def toohigh(draw):
    return {'fs': draw(st.sampled_from([1000.0, 51200.0])), 'rel': draw(fl(0.3, 0.6, 4)), 'k': draw(st.sampled_from(['FiltOctave', 'FiltFiltOctave'])), 'fraction': draw(st.sampled_from(list(FRAC)))}


@subcheck(P, 'too_high', toohigh(), quick=150, rule='band too high')
def toohigh_(d, ctx):
    """Bands that do not fit below half the sampling frequency are rejected."""
    if abs(d['rel'] - 0.5 / np.sqrt(2)) < 1e-3:
        ctx.discard()
    obj = getattr(ac, d['k'])(source=ac.TimeSamples(data=np.ones((50, 1)), sample_freq=d['fs']), band=d['rel'] * d['fs'], fraction=d['fraction'])
    bad = d['rel'] > 0.5 / np.sqrt(2)
    try:
        list(obj.result(16))
        ok = True
    except ValueError:
        ok = False
    if bad:
        ctx.check(not ok, f'{d}: accepted')
    ctx.interesting(bad)


# ------------------------------------------------------------------------------ changes during a run
@st.composite
def live(draw):
    s = draw(src(nlo=8, fs=1000.0))
    return {'source': s, 'num': draw(st.integers(1, 20)), 'bands': draw(st.lists(fl(20, 300, 1), min_size=2, max_size=4)), 'order': draw(st.integers(1, 4))}


@subcheck(P, 'change_during_run', live(), quick=150, rule='at least two blocks')
def live_(d, ctx):
    """A filter whose band is changed during a run goes on with the new coefficients and the old state."""
    x = data(d['source'])
    num, bands = d['num'], d['bands']
    obj = ac.FiltOctave(source=zoo.build(d['source']), band=bands[0], order=d['order'])
    zi = np.zeros((d['order'], 2, x.shape[1]))
    for i, block in enumerate(obj.result(num)):
        band = bands[min(i, len(bands) - 1)]
        ref, zi = sg.sosfilt(band_sos(band, 1000.0, d['order'], 1), x[i * num : (i + 1) * num], axis=0, zi=zi)
        ctx.close(block, ref, f'block {i} with band {band}', rtol=1e-9, scale=np.abs(x).max())
        obj.band = bands[min(i + 1, len(bands) - 1)]
    ctx.interesting(x.shape[0] > num)


# ------------------------------------------------------------------------------ convolution
@st.composite
def convolve(draw):
    s = draw(src(nhi=200))
    n, c = s['a']['data']['shape']
    L = draw(st.one_of(st.integers(1, 12), st.integers(1, 150)))
    sh = draw(st.sampled_from([[L], [L, 1], [L, c]]))
    return {'source': s, 'kernel': draw(zoo.arrays(sh, kinds=('normal', 'int', 'impulse'))), 'num': draw(st.one_of(st.integers(1, 8), st.integers(1, max(1, min(n, L))), st.integers(1, 160)))}


@subcheck(P, 'convolve', convolve(), quick=900, shards=3, rule='kernel and signal longer than one block')
def convolve_(d, ctx):
    x, h, num = data(d['source']), zoo.arr(d['kernel']), d['num']
    n, c = x.shape
    h2 = np.broadcast_to(h.reshape(h.shape[0], -1), (h.shape[0], c))
    ref = np.array([np.convolve(x[:, j], h2[:, j]) for j in range(c)]).T
    obj = ac.TimeConvolve(source=zoo.build(d['source']), kernel=h)
    ctx.equal(obj.num_samples, ref.shape[0], 'num_samples')
    out = zoo.cat(zoo.collect(obj, num), c)
    ctx.shape(out, ref.shape, f'result({num})')
    ctx.close(out, ref, f'result({num}), kernel {h.shape}', rtol=1e-10, scale=np.abs(x).max() * np.abs(h).sum(axis=0).max())
    if n <= num:
        ctx.label('one signal block')
    if h.shape[0] > num:
        ctx.label('several kernel blocks')
    ctx.interesting(n > num and h.shape[0] > num)
