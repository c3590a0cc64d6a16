"""C10 signal generators produce the signals they describe."""

import numpy as np
from hypothesis import strategies as st
from scipy import signal as sg

from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C10'
rms = st.one_of(fl(0, 5), st.sampled_from([1e-9, 20.0, 1e6]))
nsamp = st.one_of(st.integers(1, 200), st.integers(1, 3000))
fss = st.sampled_from([1.0, 10.0, 51200.0, 8000.0, 44100.0])


@st.composite
def sine(draw):
    fs = draw(fss)
    a = dict(sample_freq=fs, num_samples=draw(nsamp), freq=round(draw(fl(0, 0.6, 4)) * fs, 5), phase=draw(fl(-10, 10)), amplitude=draw(fl(-5, 5)))
    drop = draw(st.lists(st.sampled_from(['phase', 'amplitude']), max_size=1))
    return S('SineGenerator', **{k: v for k, v in a.items() if k not in drop})


@subcheck(P, 'sine', sine(), quick=400, rule='at least one sample away from zero')
def sine_(spec, ctx):
    a = dict(phase=0.0, amplitude=1.0) | spec['a']
    s = zoo.build(spec).signal()
    t = np.arange(a['num_samples']) / a['sample_freq']
    ref = a['amplitude'] * np.sin(2 * np.pi * a['freq'] * t + a['phase'])
    ctx.close(s, ref, 'SineGenerator.signal', rtol=1e-9, scale=abs(a['amplitude']) * max(1, a['freq'] * t[-1]) + 1e-30)
    ctx.interesting(np.abs(ref).max() > 1e-6)


@st.composite
def noise(draw):
    fs = draw(fss)
    k = draw(st.sampled_from(['WNoiseGenerator', 'PNoiseGenerator', 'FiltWNoiseGenerator', 'UncorrelatedNoiseSource']))
    a = dict(sample_freq=fs, num_samples=draw(nsamp), rms=draw(rms), seed=draw(st.integers(0, 2**31)))
    if k == 'PNoiseGenerator':
        a['depth'] = draw(st.integers(0, 16))
    if k == 'FiltWNoiseGenerator':
        a['ma'] = {'lit': draw(st.one_of(st.just([]), st.lists(fl(-1, 1), min_size=0, max_size=6).map(lambda l: [1.0, *l])))}
        poles = draw(st.lists(fl(-0.8, 0.8, 2), max_size=3))
        a['ar'] = {'lit': [float(v) for v in np.poly(poles)] if poles else []}
    if k == 'UncorrelatedNoiseSource':
        k = 'WNoiseGenerator'
    return {'spec': S(k, **a), 'scale': draw(st.sampled_from([0.0, 0.5, 2.0, 3.25])), 'seed2': draw(st.integers(0, 2**31))}


@subcheck(P, 'noise', noise(), quick=700, shards=2, rule='rms > 0')
def noise_(d, ctx):
    spec = d['spec']
    k, a = spec['k'], spec['a']
    obj = zoo.build(spec)
    s = np.array(obj.signal())
    n = a['num_samples']
    ctx.shape(s, (n,), f'{k}.signal')
    ctx.same(obj.signal(), s, f'{k}.signal called twice')
    np.random.seed(4711)
    ctx.same(zoo.build(spec).signal(), s, f'{k}.signal from another generator with the same seed')
    # linear in rms
    s2 = zoo.build(zoo.patched(spec, ['rms'], 2.5)).signal()
    s3 = zoo.build(zoo.patched(spec, ['rms'], 2.5 * d['scale'])).signal()
    ctx.close(s3, d['scale'] * s2, f'{k}: signal for {d["scale"]} times the rms', rtol=1e-10)
    ctx.close(s * 2.5, s2 * a['rms'], f'{k}: proportional to rms', rtol=1e-10)
    if d['seed2'] != a['seed'] and n > 3:
        other = zoo.build(zoo.patched(zoo.patched(spec, ['rms'], 2.5), ['seed'], d['seed2'])).signal()
        ctx.check(not np.array_equal(other, s2), f'{k}: seeds {a["seed"]} and {d["seed2"]} give the same signal')
    if k == 'FiltWNoiseGenerator':
        ma = np.array(a['ma']['lit'] or [1.0])
        ar = np.array(a['ar']['lit'] or [1.0])
        skip = round(0.5 * (len(ma) - 1))
        w = zoo.build(S('WNoiseGenerator', sample_freq=a['sample_freq'], num_samples=n + skip, rms=a['rms'], seed=a['seed'])).signal()
        ctx.close(s, sg.lfilter(ma, ar, w)[skip:], f'{k}: white noise of the same seed filtered with ma={ma}, ar={ar}', rtol=1e-6)
    ctx.label(k)
    ctx.interesting(a['rms'] > 0)


@st.composite
def level(draw):
    k = draw(st.sampled_from(['WNoiseGenerator', 'PNoiseGenerator']))
    a = dict(sample_freq=1000.0, num_samples=2 ** draw(st.integers(14, 16)), rms=draw(st.sampled_from([1e-3, 0.3, 1.0, 7.0])), seed=draw(st.integers(0, 2**31)))
    if k == 'PNoiseGenerator':
        a['depth'] = draw(st.integers(6, 16))
    return S(k, **a)


@subcheck(P, 'level', level(), quick=60, rule='every case')
def level_(spec, ctx):
    """Statistics; the bounds are more than eight standard deviations wide."""
    k, a = spec['k'], spec['a']
    s = zoo.build(spec).signal()
    r = np.sqrt(np.mean(s**2)) / a['rms']
    lo, hi = (0.95, 1.05) if k[0] == 'W' else (0.6, 1.4)
    ctx.check(lo < r < hi, lambda: f'{k}: rms is {r:.4f} times the configured one')
    f, p = sg.welch(s, fs=1.0, nperseg=256)
    lev = [10 * np.log10(p[(f >= lo) & (f < 2 * lo)].mean()) for lo in (1 / 64, 1 / 32, 1 / 16, 1 / 8, 1 / 4)]
    slope = np.polyfit(range(5), lev, 1)[0]
    want = 0.0 if k[0] == 'W' else -3.01
    ctx.check(abs(slope - want) < 0.7, lambda: f'{k}: spectrum falls by {-slope:.2f} dB per octave, expected {-want}')
    if k == 'PNoiseGenerator' and a['depth'] >= 9 and a['num_samples'] >= 2**16:
        f, p = sg.welch(s, fs=1.0, nperseg=4096)
        lev = np.array([10 * np.log10(p[(f >= lo) & (f < 2 * lo)].mean()) for lo in 2.0 ** -np.arange(9, 1, -1)])
        line = np.polyfit(range(8), lev, 1)
        ctx.check(abs(line[0] + 3.1) < 0.4, lambda: f'{k}: spectrum falls by {-line[0]:.2f} dB per octave over eight octaves')
        off = np.abs(lev - np.polyval(line, range(8))).max()
        ctx.check(off < 2, lambda: f'{k}: octave levels {lev} are up to {off:.2f} dB off a straight line')
    ctx.label(k)
    ctx.interesting()


@st.composite
def generic(draw):
    big = draw(st.integers(0, 5)) == 0
    m = draw(st.integers(1, 3000) if big else st.integers(1, 40))
    fs = draw(fss)
    src = S('TimeSamples', data=draw(zoo.arrays([m, draw(st.integers(1, 3))])), sample_freq=fs)
    a = {'source': src}
    if draw(st.integers(0, 3)):
        a['num_samples'] = draw(st.one_of(st.integers(1, 4 * m + 3), st.builds(lambda k, r: max(1, k * m + r), st.integers(1, 5), st.integers(-1, 2))))
    if draw(st.booleans()):
        a['amplitude'] = draw(fl(-4, 4))
    if draw(st.booleans()):
        a['loop_signal'] = draw(st.booleans())
    return S('GenericSignalGenerator', **a)


@subcheck(P, 'generic', generic(), quick=500, rule='the wanted signal is longer than the data')
def generic_(spec, ctx):
    a = spec['a']
    g = zoo.build(spec)
    data = zoo.arr(a['source']['a']['data'])[:, 0]
    m = len(data)
    n = a.get('num_samples', m)
    ctx.equal(g.num_samples, n, 'GenericSignalGenerator.num_samples')
    ctx.equal(g.sample_freq, a['source']['a']['sample_freq'], 'GenericSignalGenerator.sample_freq')
    if a.get('loop_signal', True):
        ref = np.array([data[i % m] for i in range(n)])
    else:
        ref = np.array([data[i] if i < m else 0.0 for i in range(n)])
    ctx.close(g.signal(), a.get('amplitude', 1.0) * ref, 'GenericSignalGenerator.signal', rtol=1e-12)
    ctx.same(g.signal(), g.signal(), 'GenericSignalGenerator.signal called twice')
    ctx.interesting(n > m)


@st.composite
def upsampled(draw):
    n = draw(st.integers(1, 120))
    fs = draw(fss)
    return {'spec': draw(zoo.signal(n, fs)), 'factor': draw(st.integers(1, 20)), 'n': n}


@subcheck(P, 'usignal', upsampled(), quick=400, rule='upsampling factor above one')
def usignal_(d, ctx):
    g = zoo.build(d['spec'])
    s = g.signal()
    f, n = d['factor'], d['n']
    u = g.usignal(f)
    k = d['spec']['k']
    ctx.shape(u, (n * f,), f'{k}.usignal({f})')
    ctx.close(u[::f], s, f'{k}.usignal({f}) at the original samples', rtol=1e-8, atol=1e-12)
    # nothing above the original Nyquist frequency
    U = np.fft.fft(u)
    q = np.abs(np.fft.fftfreq(n * f)) * n * f
    over = U[q > n / 2 + 0.5]
    ctx.close(over, np.zeros_like(over), f'{k}.usignal({f}): spectrum above the original Nyquist frequency', rtol=1e-8, scale=np.abs(U).max() + 1e-9)
    ctx.interesting(f > 1 and n > 1)
    ctx.label(k)
