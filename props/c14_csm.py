"""C14 the cross spectral matrix is the Welch estimate of the data."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C14'
WIN = {
    'Rectangular': lambda n: np.ones(n),
    'Hanning': lambda n: 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1)),
    'Hamming': lambda n: 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(n) / (n - 1)),
    'Bartlett': lambda n: 1 - np.abs(2 * np.arange(n) / (n - 1) - 1),
    'Blackman': lambda n: 0.42 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1)) + 0.08 * np.cos(4 * np.pi * np.arange(n) / (n - 1)),
}
OVL = {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}


@st.composite
def csm_case(draw):
    bs = draw(st.sampled_from([128, 128, 256, 512]))
    ov = draw(st.sampled_from(list(OVL)))
    hop = bs // OVL[ov]
    nb = draw(st.integers(1, 6))
    extra = draw(st.one_of(st.just(0), st.just(0), st.integers(1, hop - 1)))
    n = bs + (nb - 1) * hop + extra
    c = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(['normal', 'normal', 'uniform', 'int', 'impulse', 'rank1', 'sine', 'zeros']))
    return dict(bs=bs, overlap=ov, n=n, c=c, kind=kind, seed=draw(zoo.seeds), scale=draw(st.sampled_from([1.0, 1e-5, 1e4])), fs=draw(st.sampled_from([128.0, 1000.0, 51200.0])), window=draw(st.sampled_from(list(WIN))), precision=draw(st.sampled_from(['complex128', 'complex128', 'complex64'])), chain=draw(st.booleans()))


def timedata(d):
    n, c, s = d['n'], d['c'], d['scale']
    r = np.random.RandomState(d['seed'])
    if d['kind'] == 'rank1':
        return np.outer(r.standard_normal(n), r.standard_normal(c)) * s
    if d['kind'] == 'sine':
        k = r.randint(1, d['bs'] // 2, c)
        return np.sin(2 * np.pi * np.outer(np.arange(n), k) / d['bs'] + r.uniform(0, 7, c)) * s
    return zoo.arr({'arr': d['kind'], 'shape': [n, c], 'seed': d['seed'], 'scale': s})


def welch(x, bs, hop, win):
    w = win(bs)[:, None]
    nb = (x.shape[0] - bs) // hop + 1
    X = np.array([np.fft.rfft(x[i * hop : i * hop + bs] * w, axis=0) for i in range(nb)])
    return 2 / bs / float(np.sum(w**2)) * np.einsum('bfi,bfj->fij', X, X.conj()), nb


def make(d, x):
    src = ac.TimeSamples(data=x, sample_freq=d['fs'])
    if d['chain']:
        src = ac.MaskedTimeOut(source=ac.Cache(source=src))
    return ac.PowerSpectra(source=src, block_size=d['bs'], window=d['window'], overlap=d['overlap'], precision=d['precision'], cached=False)


@subcheck(P, 'welch', csm_case(), quick=600, shards=4, rule='more than one block, more than one channel, data not zero')
def welch_(d, ctx):
    ac.config.global_caching = 'none'
    x = timedata(d)
    ps = make(d, x)
    hop = d['bs'] // OVL[d['overlap']]
    total, nb = welch(x, d['bs'], hop, WIN[d['window']])
    fits = (d['n'] - d['bs']) % hop == 0
    # a fraction of a block at the end of the data is counted as a fraction of a block (known finding)
    nbf = nb if fits else (d['n'] - d['bs']) / hop + 1
    ctx.close(ps.num_blocks, nbf, 'num_blocks', rtol=1e-9)
    ref = total / nbf
    csm = np.array(ps.csm)
    f32 = d['precision'] == 'complex64'
    ctx.shape(csm, ref.shape, 'csm')
    scale = np.abs(x).max() ** 2 + 1e-30
    tol = 2e-4 if f32 else 1e-10
    # scale by the largest bin: single bins cancel
    ctx.close(csm, ref, f'csm of {d}', rtol=tol, scale=max(np.abs(ref).max(), 1e-3 * scale / d['bs']))
    ctx.close(csm, csm.conj().transpose(0, 2, 1), 'csm against its conjugate transpose', rtol=1e-6 if f32 else 1e-13)
    ctx.close(ps.fftfreq(), np.arange(d['bs'] // 2 + 1) * d['fs'] / d['bs'], 'fftfreq', rtol=1e-12)
    ctx.equal((ps.num_channels, ps.sample_freq), (d['c'], d['fs']), '(num_channels, sample_freq)')
    ctx.label(d['window'], d['overlap'], 'fits' if fits else 'left-over samples')
    ctx.interesting(nb > 1 and d['c'] > 1 and bool(np.any(x)))


@subcheck(P, 'num_blocks', csm_case().map(lambda d: {**d, 'n': d['n'] - (d['n'] - d['bs']) % (d['bs'] // OVL[d['overlap']])}), quick=60, rule='more than one block')
def num_blocks_(d, ctx):
    """The number of blocks is the number of blocks averaged (also witness of the known finding)."""
    ac.config.global_caching = 'none'
    x = timedata(d)
    ps = make(d, x)
    _, nb = welch(x, d['bs'], d['bs'] // OVL[d['overlap']], WIN[d['window']])
    ctx.close(ps.num_blocks, nb, f'num_blocks for {d["n"]} samples, block size {d["bs"]}, overlap {d["overlap"]}', rtol=1e-9)
    ctx.interesting(nb > 1)


@subcheck(P, 'eigen', csm_case(), quick=300, shards=2, rule='more than one channel, data not zero')
def eigen_(d, ctx):
    """Eigenvalues are real, ascending, not negative; with the eigenvectors they give the matrix back."""
    ac.config.global_caching = 'none'
    x = timedata(d)
    ps = make(d, x)
    csm, eva, eve = np.array(ps.csm), np.array(ps.eva), np.array(ps.eve)
    nf, c = d['bs'] // 2 + 1, d['c']
    ctx.shape(eva, (nf, c), 'eva')
    ctx.shape(eve, (nf, c, c), 'eve')
    tol = 3e-5 if d['precision'] == 'complex64' else 1e-11
    scale = np.abs(csm).max() * c + 1e-300
    ctx.close(np.einsum('fij,fj,fkj->fik', eve, eva, eve.conj()), csm, 'eve diag(eva) eve^H', rtol=tol, scale=scale)
    ctx.close(np.einsum('fij,fik->fjk', eve.conj(), eve), np.broadcast_to(np.eye(c), (nf, c, c)), 'eve^H eve', rtol=tol)
    ctx.check(np.all(np.diff(eva, axis=1) >= 0), 'eigenvalues are not ascending')
    ctx.check(eva.min() >= -tol * scale, f'eigenvalue {eva.min()} of a positive semidefinite matrix (scale {scale})')
    ctx.close(eva.sum(axis=1), np.einsum('fii->f', csm).real, 'sum of eigenvalues', rtol=tol, scale=scale)
    f = ps.fftfreq()
    r = np.random.RandomState(d['seed'])
    i = int(r.randint(1, nf - 1))
    ctx.same(ps.synthetic_ev(float(f[i])), eva[i], 'synthetic_ev, single line')
    num = int(r.choice([1, 3, 12]))
    fc = float(f[i] * r.uniform(0.9, 1.1))
    lo, hi = fc * 2 ** (-0.5 / num), fc * 2 ** (0.5 / num)
    sel = (f >= lo) & (f < hi)
    if sel.any() and np.abs(np.concatenate([f - lo, f - hi])).min() > 1e-9 * fc:
        ctx.close(ps.synthetic_ev(fc, num), eva[sel].sum(axis=0), f'synthetic_ev({fc}, {num})', rtol=1e-5 if tol > 1e-6 else 1e-10)
        ctx.label('band')
    ctx.interesting(c > 1 and bool(np.any(x)))


# ------------------------------------------------------------------------------ power of known signals
@st.composite
def tone(draw):
    bs = draw(st.sampled_from([128, 256]))
    return dict(bs=bs, k=draw(st.integers(4, bs // 2 - 4)), amp=draw(fl(0.1, 5)), phase=draw(st.lists(fl(-3, 3), min_size=1, max_size=3)), window=draw(st.sampled_from(list(WIN))), overlap=draw(st.sampled_from(list(OVL))), blocks=draw(st.integers(1, 3)))


@subcheck(P, 'tone', tone(), quick=150, rule='more than one channel')
def tone_(d, ctx):
    """A tone of amplitude A has the power A²/2, spread over the lines next to it, and its phase differences."""
    ac.config.global_caching = 'none'
    bs, k, ph = d['bs'], d['k'], np.array(d['phase'])
    n = np.arange(bs * d['blocks'])
    x = d['amp'] * np.cos(2 * np.pi * k / bs * n[:, None] + ph)
    ps = ac.PowerSpectra(source=ac.TimeSamples(data=x, sample_freq=1000.0), block_size=bs, window=d['window'], overlap=d['overlap'])
    csm = ps.csm
    p = np.einsum('fii->if', csm).real[:, k - 3 : k + 4].sum(axis=1)
    ctx.close(p, np.full(len(ph), d['amp'] ** 2 / 2), 'power of the tone', rtol=1e-2)
    ctx.close(np.angle(csm[k] * np.exp(-1j * np.subtract.outer(ph, ph))), np.zeros((len(ph), len(ph))), 'phase of the cross spectrum', rtol=2e-2, scale=1.0)
    if d['window'] == 'Rectangular':
        ctx.close(csm[k], d['amp'] ** 2 / 2 * np.exp(1j * np.subtract.outer(ph, ph)), 'csm at the tone', rtol=1e-9)
    ctx.interesting(len(ph) > 1)


# ------------------------------------------------------------------------------ frequency ranges
@st.composite
def ranges(draw):
    bs = draw(st.sampled_from([128, 256]))
    fs = draw(st.sampled_from([1000.0, 128.0]))
    m = bs // 2
    ind = st.integers(0, m)
    fr = fl(0, fs / 2, 1)
    op = st.one_of(
        st.tuples(st.just('low'), st.integers(0, m - 1)),
        st.tuples(st.just('high'), st.one_of(st.none(), ind, st.integers(-m, -1), st.integers(m + 1, 2 * m))),
        st.tuples(st.just('range'), st.tuples(fr, st.one_of(st.none(), fr)).map(lambda t: [t[0], t[1]] if t[1] is None else sorted(t))),
        st.tuples(st.just('bs'), st.sampled_from([128, 256])),
        st.tuples(st.just('fs'), st.sampled_from([1000.0, 128.0])),
    )
    return {'bs': bs, 'fs': fs, 'ops': draw(st.lists(op, min_size=1, max_size=6)), 'read': draw(st.booleans())}


@subcheck(P, 'ranges', ranges(), quick=400, shards=2, rule='indices and a range were both assigned')
def ranges_(d, ctx):
    """Index and frequency limits follow the most recent kind of assignment."""
    src = ac.TimeSamples(data=np.zeros((300, 1)), sample_freq=d['fs'])
    ps = ac.PowerSpectra(source=src, block_size=d['bs'])
    bs, fs = d['bs'], d['fs']
    low, high, fl_, fh, last = 1, -1, 0.0, 0.0, True
    for i, (op, v) in enumerate(d['ops']):
        if op == 'low':
            ps.ind_low, low, last = v, v, True
        elif op == 'high':
            ps.ind_high, high, last = v, v, True
        elif op == 'range':
            ps.freq_range = v
            (fl_, fh), last = v, False
        elif op == 'bs':
            ps.block_size = bs = v
        else:
            src.sample_freq = fs = v
        if not d['read'] and i < len(d['ops']) - 1:
            continue
        f = np.arange(bs // 2 + 1) * fs / bs
        m = len(f)
        if last:
            el, eh = min(low, m - 1), None if high is None else min(high, m - 1)
        else:
            el = sum(f[:-1] < fl_ * (1 - 1e-13))
            eh = None if fh is None else sum(f[:-1] < fh * (1 - 1e-13))
        what = f'after {d["ops"][: i + 1]}'
        ctx.equal((int(ps.ind_low), ps.ind_high if ps.ind_high is None else int(ps.ind_high)), (int(el), eh if eh is None else int(eh)), f'(ind_low, ind_high) {what}')
        ctx.equal([int(j) for j in ps.indices], list(range(m))[el:eh], f'indices {what}')
        if eh is None:
            ctx.check(ps.freq_range[0] == f[el] and ps.freq_range[1] is None, f'freq_range {ps.freq_range} {what}')
        elif -m <= eh:
            ctx.close(np.array(ps.freq_range), f[[el, eh]], f'freq_range {what}', rtol=1e-12)
    kinds = {o[0] for o in d['ops']}
    ctx.interesting('range' in kinds and bool(kinds & {'low', 'high'}))


# ------------------------------------------------------------------------------ imported matrices
@st.composite
def imported(draw):
    nf, c = draw(st.integers(1, 6)), draw(st.integers(1, 5))
    mats = draw(st.lists(st.tuples(zoo.seeds, st.integers(1, 6), st.sampled_from([1.0, 1e-6])), min_size=1, max_size=4))
    bad = draw(st.sampled_from([None, [nf, c], [nf, c, c + 1], [nf, c, c, 1]]))
    return {'nf': nf, 'c': c, 'mats': mats, 'bad': bad, 'freqs': draw(st.sampled_from(['array', 'scalar' if nf == 1 else 'array'])), 'read': draw(st.lists(st.booleans(), min_size=4, max_size=4))}


@subcheck(P, 'imported', imported(), quick=250, rule='the matrix is exchanged')
def imported_(d, ctx):
    nf, c = d['nf'], d['c']
    ps = ac.PowerSpectraImport()
    freqs = 100.0 if d['freqs'] == 'scalar' else np.arange(nf) * 100.0 + 50
    ps.frequencies = freqs
    digests = {}
    for j, (seed, rank, s) in enumerate(d['mats']):
        a = zoo.arr({'arr': 'cnormal', 'shape': [nf, c, rank], 'seed': seed})
        m = s * np.einsum('fir,fjr->fij', a, a.conj())
        ps.csm = m
        if not d['read'][j] and j < len(d['mats']) - 1:
            continue
        ctx.same(ps.csm, m, 'csm')
        w, v = np.array(ps.eva), np.array(ps.eve)
        ctx.close(np.einsum('fij,fj,fkj->fik', v, w, v.conj()), m, f'eve diag(eva) eve^H of matrix {j}', rtol=1e-11, scale=np.abs(m).max())
        ctx.equal(ps.num_channels, c, 'num_channels')
        ctx.same(np.asarray(ps.fftfreq(), dtype=float), np.atleast_1d(freqs), 'fftfreq')
        ctx.equal([int(i) for i in ps.indices], list(range(nf)), 'indices')
        key = (seed, rank, s)
        for k2, dg in digests.items():
            ctx.equal(dg == ps.digest, k2 == key, f'digest of {k2} equal to that of {key}')
        digests[key] = ps.digest
    if d['bad']:
        try:
            ps.csm = np.zeros(d['bad'])
            ok = True
        except ValueError:
            ok = False
        ctx.check(not ok or d['bad'] == [nf, c, c], f'csm of shape {d["bad"]} accepted')
    ctx.interesting(len(d['mats']) > 1)
