"""C11 stationary sources radiate the delayed, attenuated signal to every microphone."""

import numpy as np
from hypothesis import strategies as st
from scipy.special import lpmv
from math import factorial

from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C11'
UPS = st.sampled_from([1, 2, 3, 5, 16])


@st.composite
def base(draw, nlo=1, nhi=150, far=False, noise=False, general=False, clo=1, chi=5):
    """Signal, microphones, environment and location; sizes are scaled so that delays are a part of the signal length."""
    n = draw(st.integers(nlo, nhi))
    fs = draw(st.sampled_from([10.0, 1000.0, 8000.0, 51200.0]))
    e = draw(zoo.env())
    if general and draw(st.integers(0, 14)) == 0:
        e = draw(zoo.general_env())
        n = max(n, 20)
        fs = float(n) * draw(st.sampled_from([1, 10]))
        L = 1.0
    else:
        L = float(f"{200.0 * n / fs * draw(st.sampled_from([0.01, 0.03] + ([0.3, 2.0] if far else []))):.3g}")
    nc = draw(st.integers(clo, chi))
    m = draw(zoo.mics(n=nc, spread=L))
    loc = [float(f'{L * v:.6g}') for v in (draw(fl(-1, 1, 2)), draw(fl(-1, 1, 2)), draw(fl(1.2, 4, 2)))]
    sig = draw(zoo.signal(n, fs, noise_only=noise))
    return dict(signal=sig, mics=m, env=e, loc={'tup': loc}, up=draw(UPS)), n, fs, nc


@st.composite
def times(draw, n, fs, free):
    """Start times; unless ``free`` the recording needs no samples beyond either end of the (looped) signal."""
    start = draw(st.one_of(st.just(0.0), fl(-50, 50, 2)))
    delta = draw(st.one_of(st.just(0.0), fl(-n / 4, 0, 2))) if not free else draw(st.one_of(st.just(0.0), fl(-n / 2, n / 2, 2), fl(-3 * n, 3 * n, 2)))
    return {'start': round(start / fs, 9), 'start_t': round((start - delta) / fs, 9)}


def index(obj, r, offset=0.0):
    """Real valued index into the upsampled signal, by sample and microphone."""
    t = np.arange(obj.num_samples)[:, None] / obj.sample_freq
    return ((obj.start - obj.start_t) + t - r[None, :] / obj.env.c) * obj.sample_freq * obj.up + offset * obj.up


def candidates(sig, x, zeros=False):
    """Values of the signal at the nearest index (both, where it is a tie or where the rounding of a negative one is open)."""
    res = []
    eps = 1e-8 * (np.abs(x) + 100)
    for d in (-1, 1):
        y = x + 0.5 + d * eps
        for f in (np.floor, np.trunc):
            i = f(y).astype(int)
            v = sig[i % len(sig)]
            if zeros:
                v = np.where((y - 0.5 < 0) | (i >= len(sig)) | (i < 0), 0, v)
            res.append(v)
    return res


def judge(ctx, out, cands, scale, what, rtol=1e-9):
    ctx.shape(out, cands[0].shape, what)
    tol = rtol * (scale + max(np.abs(c).max(initial=0) for c in cands)) + 1e-300
    ok = np.zeros(out.shape, bool)
    for c in cands:
        ok |= np.abs(out - c) <= tol
    if not ok.all():
        t, m = np.argwhere(~ok)[0]
        ctx.fail(f'{what}: sample {t}, microphone {m} is {out[t, m]!r}, expected {cands[0][t, m]!r}')


def distances(obj, loc):
    return np.asarray(obj.env._r(np.array(loc, float).reshape(3, 1), obj.mics.pos)).reshape(-1)


@st.composite
def monopole(draw):
    a, n, fs, nc = draw(base(far=True, general=True))
    a.update(draw(times(n, fs, True)))
    pre = draw(st.sampled_from(['loop', 'zeros', None]))
    if pre:
        a['prepadding'] = pre
    return {'spec': S('PointSource', **a), 'num': draw(st.integers(1, n + 3))}


@subcheck(P, 'monopole', monopole(), quick=500, shards=2, rule='some emitted sample is heard')
def monopole_(d, ctx):
    obj = zoo.build(d['spec'])
    sig = obj.signal.usignal(obj.up)
    r = distances(obj, obj.loc)
    x = index(obj, r)
    zeros = obj.prepadding == 'zeros'
    out = zoo.full(obj, d['num'])
    judge(ctx, out, [c / r for c in candidates(sig, x, zeros)], 0, f'PointSource ({obj.prepadding})')
    if type(obj.env).__name__ == 'Environment':
        ctx.close(r, np.sqrt(((np.array(obj.loc)[:, None] - obj.mics.pos) ** 2).sum(0)), 'distance', rtol=1e-9)
    ctx.label(obj.prepadding, type(obj.env).__name__, 'before' if x.min() < 0 else 'inside', 'beyond' if x.max() >= len(sig) else '')
    ctx.interesting(np.abs(out).max(initial=0) > 0)


@st.composite
def dipole(draw):
    a, n, fs, nc = draw(base(nlo=4))
    a.update(draw(times(n, fs, False)))
    a['direction'] = {'tup': draw(st.sampled_from([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, -0.5, 0.0], [0.3, -0.4, 1.2], [-0.1, 0.0, 0.05]]))}
    return {'spec': S('PointSourceDipole', **a), 'num': draw(st.integers(1, n + 3))}


@subcheck(P, 'dipole', dipole(), quick=300, rule='some emitted sample is heard')
def dipole_(d, ctx):
    obj = zoo.build(d['spec'])
    sig = obj.signal.usignal(obj.up)
    v = np.array(obj.direction, float) * 1e-5
    dist = obj.env.c / obj.sample_freq * np.sqrt(v @ v)
    off = v / np.sqrt(v @ v) * dist / 2
    loc = np.array(obj.loc, float)
    r, r1, r2 = (distances(obj, loc + o) for o in (0, off, -off))
    c1, c2 = (candidates(sig, index(obj, q)) for q in (r1, r2))
    out = zoo.full(obj, d['num'])
    # the difference of two nearly equal values is divided by their distance
    noise = 1e-15 * np.abs(sig).max() / r.min() * r.max() / dist * 20
    judge(ctx, out, [r / dist * (p / r1 - q / r2) for p in c1 for q in c2], noise / 1e-6, 'PointSourceDipole', rtol=1e-6)
    ctx.label(type(obj.env).__name__)
    ctx.interesting(np.abs(out).max(initial=0) > 0)


def ylm(m, l, azi, ele):
    """Complex spherical harmonic (Condon-Shortley phase), azimuth and polar angle."""
    y = np.sqrt((2 * l + 1) / 4 / np.pi * factorial(l - abs(m)) / factorial(l + abs(m))) * lpmv(abs(m), l, np.cos(ele)) * np.exp(1j * abs(m) * azi)
    return y if m >= 0 else (-1) ** m * y.conj()


@st.composite
def harmonic(draw):
    a, n, fs, nc = draw(base(nlo=4))
    a.update(draw(times(n, fs, False)))
    lo = draw(st.integers(0, 3))
    a.update(lOrder=lo, alpha={'arr': draw(st.sampled_from(['normal', 'cnormal'])), 'shape': [(lo + 1) ** 2], 'seed': draw(zoo.seeds)},
             direction={'tup': draw(st.sampled_from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.3, -0.4, 1.2], [0.0, 0.0, -2.0]]))})
    return {'spec': S('SphericalHarmonicSource', **a), 'num': draw(st.integers(1, n + 3))}


@subcheck(P, 'spherical_harmonics', harmonic(), quick=300, rule='some emitted sample is heard')
def harmonic_(d, ctx):
    obj = zoo.build(d['spec'])
    sig = obj.signal.usignal(obj.up)
    v = obj.mics.pos - np.array(obj.loc)[:, None]
    v = v * np.array([1, 1, -1.0])[:, None]
    dn = np.array(obj.direction) / np.linalg.norm(obj.direction)
    # a polynomial in cos(ele) and sin(|ele|): only its value matters, not the range of the angle
    ele = np.arctan2(np.hypot(v[0], v[2]), v[1]) + np.arctan2(np.hypot(dn[0], dn[2]), dn[1]) + np.pi / 2
    azi = (np.arctan2(v[2], v[0]) + np.arctan2(dn[2], dn[0])) % (2 * np.pi)
    w = 0
    i = 0
    for lo in range(obj.lOrder + 1):
        for m in range(-lo, lo + 1):
            y = ylm(m, lo, azi, ele)
            if m < 0:
                y = y.conj() * 1j
            w = w + y * obj.alpha[i]
            i += 1
    w = w.real
    r = distances(obj, obj.loc)
    out = zoo.full(obj, d['num'])
    scale = np.abs(sig).max() / r.min() * (np.abs(obj.alpha).sum() + 1)
    judge(ctx, out, [c / r * w for c in candidates(sig, index(obj, r, np.pi / 30))], scale, 'SphericalHarmonicSource')
    ctx.label(obj.lOrder)
    ctx.interesting(np.abs(out).max(initial=0) > 0)


@st.composite
def line(draw):
    # any kind of signal, not only noise, can drive coherent monopoles
    a, n, fs, nc = draw(base(nlo=6))
    a.update(draw(times(n, fs, False)))
    ns = draw(st.integers(1, 4))
    L = 0.01 * 200 * n / fs
    a.update(direction={'tup': draw(st.sampled_from([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [1.0, 2.0, 0.5], [0.0, -3.0, 0.0]]))}, length=float(f'{L * draw(fl(0.1, 3, 2)):.4g}'),
             num_sources=ns, source_strength={'arr': draw(st.sampled_from(['pos', 'normal'])), 'shape': [ns], 'seed': draw(zoo.seeds)}, coherence='coherent')
    return {'spec': S('LineSource', **a), 'num': draw(st.integers(1, n + 3))}


@subcheck(P, 'line_source', line(), quick=300, rule='more than one monopole and a signal')
def line_(d, ctx):
    obj = zoo.build(d['spec'])
    sig = obj.signal.usignal(obj.up)
    u = np.array(obj.direction, float)
    u = u / np.linalg.norm(u)
    out = zoo.full(obj, d['num'])
    ctx.shape(out, (obj.num_samples, obj.num_channels), 'LineSource')
    lo, hi, sc = 0, 0, 0
    for s in range(obj.num_sources):
        r = distances(obj, np.array(obj.loc) + u * s * obj.length / obj.num_sources)
        c = np.array([obj.source_strength[s] * v / r for v in candidates(sig, index(obj, r))])
        lo, hi = lo + c.min(0), hi + c.max(0)
        sc = sc + np.abs(c).max()
    tol = 1e-9 * sc
    bad = (out < lo - tol) | (out > hi + tol)
    ctx.check(not bad.any(), lambda: f'LineSource: sample {np.argwhere(bad)[0]} is {out[bad][0]!r}, expected {lo[bad][0]!r}')
    out2 = zoo.full(obj, 7)
    ctx.same(out2, out, 'second run of LineSource')
    ctx.label(obj.num_sources)
    ctx.interesting(obj.num_sources > 1 and np.abs(out).max() > 0)


@st.composite
def incoherent(draw):
    ns = draw(st.integers(1, 3))
    a, n, fs, nc = draw(base(nlo=8, nhi=24, noise=True, clo=2 * ns + 1, chi=2 * ns + 3))
    a.update(draw(times(n, fs, False)))
    a['up'] = 1
    a['signal'] = S('WNoiseGenerator', sample_freq=fs, num_samples=n, rms=draw(fl(0.5, 4)), seed=draw(st.integers(0, 1000)))
    L = 0.01 * 200 * n / fs
    a.update(direction={'tup': draw(st.sampled_from([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [1.0, 2.0, 0.5]]))}, length=float(f'{L * draw(fl(0.5, 3, 2)):.4g}'),
             num_sources=ns, source_strength={'arr': 'pos', 'shape': [ns], 'seed': draw(zoo.seeds)}, coherence='incoherent')
    return {'spec': S('LineSource', **a), 'num': draw(st.integers(1, n + 3))}


@subcheck(P, 'incoherent_line_source', incoherent(), quick=80, rule='the signals of the monopoles can be told apart')
def incoherent_(d, ctx):
    obj = zoo.build(d['spec'])
    before = (obj.signal.rms, obj.signal.seed, obj.digest)
    out = zoo.full(obj, d['num'])
    ctx.equal((obj.signal.rms, obj.signal.seed, obj.digest), before, 'signal after the run')
    ctx.same(zoo.full(zoo.build(d['spec']), 5), out, 'LineSource built again')
    n, nc, ns = obj.num_samples, obj.num_channels, obj.num_sources
    u = np.array(obj.direction, float)
    u = u / np.linalg.norm(u)
    A = np.zeros((n, nc, ns, n))
    for s in range(ns):
        r = distances(obj, np.array(obj.loc) + u * s * obj.length / ns)
        x = index(obj, r)
        i = np.trunc(x + 0.5)
        if (np.abs(x + 0.5 - np.rint(x + 0.5)) < 1e-6).any():
            ctx.discard()
        i = i.astype(int) % n
        t, m = np.indices((n, nc))
        A[t, m, s, i] += obj.source_strength[s] / r[m]
    A = A.reshape(n * nc, ns * n)
    x, _, rank, _ = np.linalg.lstsq(A, out.reshape(-1), rcond=1e-10)
    res = np.abs(A @ x - out.reshape(-1)).max()
    ctx.check(res <= 1e-7 * np.abs(out).max(), f'no {ns} monopole signals explain the pressure, residual {res} of {np.abs(out).max()}')
    if rank == ns * n:
        x = x.reshape(ns, n)
        rms = np.sqrt((x**2).mean(1)) / obj.signal.rms
        ctx.check((rms > 0.2).all() and (rms < 2.5).all(), f'rms of the monopole signals over the configured one: {rms}')
        for i in range(ns):
            for j in range(i):
                cc = np.corrcoef(x[i], x[j])[0, 1]
                ctx.check(abs(cc) < 0.97, f'monopoles {i} and {j} emit the same signal (correlation {cc})')
    ctx.interesting(rank == ns * n and ns > 1)


@st.composite
def uncorrelated(draw):
    n, fs = draw(st.integers(2, 200)), draw(st.sampled_from(zoo.FS))
    nc = draw(st.integers(1, 6))
    seed = {'lit': [], 'dtype': 'uint32'}
    if draw(st.booleans()):
        seed = {'lit': draw(st.lists(st.integers(0, 2**32 - 1 if draw(st.booleans()) else 100), min_size=nc, max_size=nc)), 'dtype': 'uint32'}
    sig = draw(zoo.signal(n, fs, kinds=('WNoise', 'PNoise', 'FiltWNoise')))
    return {'spec': S('UncorrelatedNoiseSource', signal=sig, mics=draw(zoo.mics(n=nc)), seed=seed), 'num': draw(st.integers(1, n + 3))}


@subcheck(P, 'uncorrelated_noise', uncorrelated(), quick=250, rule='more than one channel')
def uncorrelated_(d, ctx):
    a = d['spec']['a']
    obj = zoo.build(d['spec'])
    seeds = a['seed']['lit'] or [a['signal']['a']['seed'] + i for i in range(obj.num_channels)]
    ref = np.array([zoo.build(zoo.patched(a['signal'], ['seed'], s)).signal() for s in seeds]).T
    out = zoo.full(obj, d['num'])
    ctx.close(out, ref, 'UncorrelatedNoiseSource', rtol=1e-12)
    ctx.equal(obj.signal.seed, a['signal']['a']['seed'], 'seed of the signal afterwards')
    ctx.label(a['signal']['k'])
    ctx.interesting(obj.num_channels > 1)


@st.composite
def convolved(draw):
    a, n, fs, nc = draw(base())
    a.pop('env')
    a.pop('up')
    kc = draw(st.sampled_from([0, 1, nc]))
    L = draw(st.integers(1, 60))
    a['kernel'] = draw(zoo.arrays([L, kc] if kc else [L]))
    return {'spec': S('PointSourceConvolve', **a), 'num': draw(st.integers(1, n + L + 3))}


@subcheck(P, 'convolved_source', convolved(), quick=250, rule='kernel longer than one sample')
def convolved_(d, ctx):
    obj = zoo.build(d['spec'])
    sig = obj.signal.signal()
    k = obj.kernel if obj.kernel.ndim == 2 else obj.kernel[:, None]
    ref = np.array([np.convolve(sig, k[:, m if k.shape[1] > 1 else 0]) for m in range(obj.num_channels)]).T
    ctx.equal(obj.num_samples, len(ref), 'num_samples')
    out = zoo.full(obj, d['num'])
    ctx.close(out, ref, 'PointSourceConvolve', rtol=1e-9, scale=np.abs(sig).max() * np.abs(k).sum(0).max() + 1e-30)
    ctx.interesting(len(k) > 1)
