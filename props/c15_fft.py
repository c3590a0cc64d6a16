"""C15 short-time spectra and their inverse obey the DFT definitions."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from props.c14_csm import OVL, WIN, welch

P = 'C15'
nums = st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 9), st.sampled_from([64]))


@st.composite
def base(draw, ovl=True, pow2=False, cmax=3):
    # PowerSpectra only knows powers of two from 128
    bs = 2 * draw(st.one_of(st.integers(1, 12), st.integers(1, 70))) if not pow2 else draw(st.sampled_from([128, 256]))
    ov = draw(st.sampled_from(list(OVL))) if ovl else 'None'
    nb = draw(st.one_of(st.integers(0, 12), st.integers(4, 12)))
    hop = bs / OVL[ov]
    n = max(1, int(bs + (nb - 1) * hop) + draw(st.integers(0, max(0, int(hop) - 1))))
    return dict(bs=bs, overlap=ov, n=n, c=draw(st.integers(1, cmax)), seed=draw(zoo.seeds), kind=draw(st.sampled_from(['normal', 'normal', 'int', 'impulse'])), window=draw(st.sampled_from(list(WIN))) if bs > 3 else 'Rectangular', fs=draw(st.sampled_from([1.0, 128.0, 51200.0])), num=draw(nums))


def timedata(d):
    return zoo.arr({'arr': d['kind'], 'shape': [d['n'], d['c']], 'seed': d['seed']})


def snapshots(d, x):
    """Windowed DFT of all complete blocks, the starts advance by the (fractional) hop."""
    bs = d['bs']
    hop = bs / OVL[d['overlap']]
    starts, k = [], 0
    while k * hop + bs <= d['n'] + 1e-9:
        starts.append(int(k * hop))
        k += 1
    w = WIN[d['window']](bs)[:, None]
    if not starts:
        return np.zeros((0, bs // 2 + 1, d['c']), complex), w
    return np.array([np.fft.rfft(x[s : s + bs] * w, axis=0) for s in starts]), w


def rfft(d, x, scaling='none', precision='complex128'):
    return ac.RFFT(source=ac.TimeSamples(data=x, sample_freq=d['fs']), block_size=d['bs'], window=d['window'], overlap=d['overlap'], scaling=scaling, precision=precision)


@st.composite
def rfft_case(draw):
    d = draw(base())
    d.update(scaling=draw(st.sampled_from(['none', 'energy', 'amplitude'])), precision=draw(st.sampled_from(['complex128', 'complex128', 'complex64'])))
    return d


@subcheck(P, 'rfft', rfft_case(), quick=700, shards=3, rule='more than one block of spectra')
def rfft_(d, ctx):
    x = timedata(d)
    o = rfft(d, x, d['scaling'], d['precision'])
    X, w = snapshots(d, x)
    bs = d['bs']
    if d['scaling'] == 'amplitude':
        ref = X / w.sum()
    else:
        ref = X / np.sqrt((w**2).mean())
    if d['scaling'] in ('amplitude', 'energy'):
        ref = ref.copy()
        ref[:, 1:-1] *= 2
    blocks = zoo.collect(o, d['num'])
    out = zoo.cat(blocks, (bs // 2 + 1) * d['c'])
    ctx.shape(out, (X.shape[0], (bs // 2 + 1) * d['c']), 'result')
    ctx.close(out, ref.reshape(X.shape[0], (bs // 2 + 1) * d['c']), f'RFFT {d}', rtol=1e-5 if d['precision'] == 'complex64' else 1e-10)
    ctx.check(all(b.shape[0] == d['num'] for b in blocks[:-1]), 'incomplete block of spectra before the last')
    ctx.equal((o.num_samples, o.num_freqs, o.num_channels, o.block_size, o.sample_freq), (X.shape[0], bs // 2 + 1, d['c'], bs, d['fs']), '(num_samples, num_freqs, num_channels, block_size, sample_freq)')
    ctx.close(o.freqs, np.arange(bs // 2 + 1) * d['fs'] / bs, 'freqs', rtol=1e-12)
    ctx.label(d['scaling'], d['overlap'])
    ctx.interesting(X.shape[0] > d['num'])


@st.composite
def irfft_case(draw):
    d = draw(base(ovl=False))
    d['precision'] = draw(st.sampled_from(['float64', 'float64', 'float32']))
    d['num'] = draw(st.one_of(st.integers(1, 20), st.just(d['bs']), st.integers(1, 200)))
    return d


@subcheck(P, 'roundtrip', irfft_case(), quick=500, shards=2, rule='block size of the samples differs from that of the spectra')
def roundtrip_(d, ctx):
    """Inverse transform of the spectra: the samples, windowed block by block, up to the window scaling."""
    x = timedata(d)
    o = ac.IRFFT(source=rfft(d, x), precision=d['precision'])
    m = d['n'] // d['bs']
    w = WIN[d['window']](d['bs'])[:, None]
    ref = (x[: m * d['bs']].reshape(m, d['bs'], d['c']) * w / np.sqrt((w**2).mean())).reshape(-1, d['c'])
    blocks = zoo.collect(o, d['num'])
    out = zoo.cat(blocks, d['c'])
    ctx.shape(out, ref.shape, f'IRFFT.result({d["num"]})')
    ctx.check(all(b.shape[0] == d['num'] for b in blocks[:-1]), lambda: f'IRFFT.result({d["num"]}) yields blocks of {[b.shape[0] for b in blocks]}')
    ctx.close(out, ref, f'IRFFT {d}', rtol=1e-5 if d['precision'] == 'float32' else 1e-10, scale=1.0 + np.abs(ref).max(initial=0))
    ctx.equal((o.num_samples, o.num_channels, o.sample_freq), (*ref.shape, d['fs']), '(num_samples, num_channels, sample_freq)')
    ctx.interesting(m > 0 and d['num'] != d['bs'])


@st.composite
def power_case(draw):
    d = draw(base(cmax=4))
    d.update(scaling=draw(st.sampled_from(['power', 'psd'])), single=draw(st.booleans()), mode=draw(st.sampled_from(['auto', 'full', 'upper', 'lower'])), low=draw(st.booleans()), nav=draw(st.one_of(st.none(), st.integers(1, 5))))
    return d


@subcheck(P, 'power', power_case(), quick=700, shards=3, rule='more than one snapshot and channel')
def power_(d, ctx):
    """Auto and cross power spectra of every snapshot, as power or as power density."""
    x = timedata(d)
    X, w = snapshots(d, x)
    X = X / np.sqrt((w**2).mean())
    bs, c = d['bs'], d['c']
    scale = (2 if d['single'] else 1) / bs**2
    if d['scaling'] == 'psd':
        scale /= d['fs'] / bs  # per frequency interval
    src = rfft(d, x)
    full = np.einsum('bfi,bfj->bfij', X, X.conj()) * scale
    if d['mode'] == 'auto':
        o = ac.AutoPowerSpectra(source=src, scaling=d['scaling'], single_sided=d['single'], precision='float32' if d['low'] else 'float64')
        ref = np.abs(X) ** 2 * scale
    else:
        o = ac.CrossPowerSpectra(source=src, scaling=d['scaling'], single_sided=d['single'], calc_mode=d['mode'], precision='complex64' if d['low'] else 'complex128')
        i, j = {'full': np.indices((c, c)).reshape(2, -1), 'upper': np.triu_indices(c), 'lower': np.tril_indices(c)}[d['mode']]
        ref = full[:, :, i, j]
    nc = ref.shape[2]
    ref = ref.reshape(ref.shape[0], ref.shape[1] * nc)
    if d['nav']:
        o = ac.Average(source=o, num_per_average=d['nav'])
        m = ref.shape[0] // d['nav']
        ref = ref[: m * d['nav']].reshape(m, d['nav'], ref.shape[1]).mean(axis=1)
        ctx.label('averaged')
    out = zoo.cat(zoo.collect(o, d['num']), ref.shape[1])
    ctx.shape(out, ref.shape, f'{d["mode"]}: result')
    ctx.close(out, ref, f'{d["mode"]} power spectra {d}', rtol=1e-5 if d['low'] else 1e-10)
    ctx.equal((o.num_samples, o.num_channels), (ref.shape[0], nc), '(num_samples, num_channels)')
    ctx.label(d['mode'], d['scaling'])
    ctx.interesting(ref.shape[0] > 1 and c > 1)


@subcheck(P, 'against_csm', base(pow2=True), quick=200, shards=2, rule='more than one snapshot and channel')
def against_csm_(d, ctx):
    """The average of all cross power spectra is the cross spectral matrix of the same data."""
    ac.config.global_caching = 'none'
    d['n'] = max(d['n'], d['bs'])
    d['n'] -= (d['n'] - d['bs']) % (d['bs'] // OVL[d['overlap']])  # whole blocks only, see C14
    x = timedata(d)
    src = ac.TimeSamples(data=x, sample_freq=d['fs'])
    ps = ac.PowerSpectra(source=src, block_size=d['bs'], window=d['window'], overlap=d['overlap'])
    cp = ac.CrossPowerSpectra(source=ac.RFFT(source=src, block_size=d['bs'], window=d['window'], overlap=d['overlap']))
    av = ac.Average(source=cp, num_per_average=max(cp.num_samples, 1))
    out = zoo.cat(zoo.collect(av, d['num']))
    nf, c = d['bs'] // 2 + 1, d['c']
    ctx.close(out.reshape(nf, c, c), np.array(ps.csm), 'averaged cross power spectra against csm', rtol=1e-9)
    ref, nb = welch(x, d['bs'], d['bs'] // OVL[d['overlap']], WIN[d['window']])
    ctx.close(out.reshape(nf, c, c), ref / nb, 'averaged cross power spectra', rtol=1e-9)
    ctx.interesting(nb > 1 and c > 1)


@st.composite
def odd(draw):
    return {'bs': draw(st.integers(1, 300))}


@subcheck(P, 'odd_block_size', odd(), quick=60, rule='odd')
def odd_(d, ctx):
    try:
        ac.RFFT(source=ac.TimeSamples(data=np.zeros((10, 1)), sample_freq=1.0)).block_size = d['bs']
        ok = True
    except ValueError:
        ok = False
    ctx.equal(ok, d['bs'] % 2 == 0, f'block size {d["bs"]} accepted')
    ctx.interesting(d['bs'] % 2 == 1)
