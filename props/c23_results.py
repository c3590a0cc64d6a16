"""C23 lazy results, bands, integrated spectra and levels agree with the map of each frequency calculated alone."""

import warnings

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import bf, zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C23'

KINDS = [('BeamformerBase', {}), ('BeamformerBase', {'r_diag': False}), ('BeamformerBase', {'precision': 'float32'}), ('BeamformerFunctional', {'gamma': 4}), ('BeamformerCapon', {}), ('BeamformerEig', {'n': -1}), ('BeamformerEig', {'n': 0}),
         ('BeamformerMusic', {'n': 1}), ('BeamformerDamas', {'n_iter': 3}), ('BeamformerDamasPlus', {'method': 'NNLS'}), ('BeamformerClean', {'n_iter': 5}), ('BeamformerCleansc', {'n_iter': 3}), ('BeamformerCMF', {'method': 'NNLS'}),
         ('BeamformerOrth', {'n': 2}), ('BeamformerGIB', {'method': 'Suzuki', 'n': 2, 'n_iter': 2})]


@st.composite
def frequencies(draw, hi=8):
    """Increasing frequencies; often equidistant as those of a Fourier transform, sometimes on the borders of bands."""
    n = draw(st.integers(1, hi))
    if draw(st.booleans()):
        df = draw(st.sampled_from([100.0, 50.0, 12.5, 333.3]))
        return [df * (i + 1) for i in range(n)]
    f = {draw(fl(20, 4000, 1)) for _ in range(n)}
    c = draw(st.sampled_from([1000.0, 500.0, 800.0]))
    for num in draw(st.lists(st.sampled_from([1, 3, 12]), max_size=2)):
        f |= {c * 2.0 ** (-0.5 / num), c * 2.0 ** (0.5 / num)}
    return sorted(f)


@st.composite
def beamformer(draw, g=None, kinds=None, hi=8):
    f = draw(frequencies(hi))
    s = draw(zoo.steer(lo=3, hi=5, e=zoo.plain_env(), g=g))
    return {'steer': s, 'f': f, 'csm': draw(bf.csm(len(f), zoo.nmics(s), full=True)), 'kind': draw(st.integers(0, len(KINDS) - 1) if kinds is None else st.sampled_from(kinds))}


def make(d, f=None, c=None):
    steer, cc, fd = bf.setup(d)
    if f is not None:
        fd = bf.import_csm(c, f)
    name, kw = KINDS[d['kind']]
    return getattr(ac, name)(freq_data=fd, steer=steer, **kw)


def alone(d):
    """The map of every frequency from an object that knows nothing else."""
    c = bf.make(d['csm'])
    return np.array([make(d, [f], c[i : i + 1]).result[0] for i, f in enumerate(d['f'])])


def tol(ref):
    return 1e-9 * np.abs(ref).max() + 1e-300 if ref.dtype == np.float64 else 1e-5 * np.abs(ref).max() + 1e-300


# ------------------------------------------------------------------------------- index expressions


@st.composite
def key(draw, n, g):
    i = st.integers(-n, n - 1)
    b = st.none() | st.integers(-n - 2, n + 2)
    kind = draw(st.sampled_from(['int', 'slice', 'slice', 'list', 'array', 'mask', 'npint', 'ellipsis', 'all', 'pair', 'pairs']))
    if kind in ('int', 'npint'):
        v = draw(i)
    elif kind in ('slice', 'pairs'):
        v = [draw(b), draw(b), draw(st.sampled_from([None, None, 1, 2, -1, -2, 3]))]
    elif kind in ('list', 'array'):
        v = draw(st.lists(i, min_size=1, max_size=4))
    elif kind == 'mask':
        v = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    elif kind == 'pair':
        v = [draw(i), draw(st.integers(-g, g - 1))]
    else:
        v = None
    if kind == 'pairs':
        v = [v, draw(st.integers(-g, g - 1))]
    return {'kind': kind, 'v': v}


def real_key(k):
    v = k['v']
    return {'int': lambda: v, 'npint': lambda: np.int64(v), 'slice': lambda: slice(*v), 'list': lambda: v, 'array': lambda: np.array(v), 'mask': lambda: np.array(v, bool), 'ellipsis': lambda: ..., 'all': lambda: slice(None),
            'pair': lambda: tuple(v), 'pairs': lambda: (slice(*v[0]), v[1])}[k['kind']]()


@st.composite
def histories(draw):
    d = draw(beamformer())
    n, g = len(d['f']), zoo.build(d['steer']).grid.size
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(['read', 'read', 'read', 'handle', 'band', 'line']))
        if op == 'read':
            ops.append(['read', draw(key(n, g))])
        elif op == 'handle':
            ops.append(['handle'])
        elif op == 'line':
            ops.append(['line', draw(st.sampled_from(d['f']))])
        else:
            lo, hi = sorted([draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))])
            ops.append(['band', d['f'][lo] - 0.01, d['f'][hi] + 0.01])
    return d | {'ops': ops}


@subcheck(P, 'histories', histories(), quick=300, rule='several frequencies, several different accesses')
def histories_(d, ctx):
    ref = alone(d)
    b = make(d)
    res = b.result
    shape = b.steer.grid.shape
    adaptive = isinstance(b, ac.fbeamform.BeamformerAdaptiveGrid)
    for op in d['ops']:
        if op[0] == 'read':
            k = real_key(op[1])
            got, want = np.asarray(res[k]), ref[k]
            ctx.shape(got, want.shape, f'result[{k}]')
            ctx.close(got, want, f'result[{k}]', rtol=0, atol=tol(ref))
        elif op[0] == 'handle':
            res = b.result
        else:
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                if op[0] == 'line':
                    got, want = b.synthetic(op[1], 0), ref[d['f'].index(op[1])]
                else:
                    sel = [op[1] <= f < op[2] for f in d['f']]
                    got, want = b.synthetic((op[1] + op[2]) / 2, [op[1], op[2]]), ref[sel].sum(0)
            if not adaptive:
                want = want.reshape(shape)
            ctx.shape(got, want.shape, str(op))
            ctx.close(got, want, str(op), rtol=0, atol=len(ref) * tol(ref))
    ctx.close(np.asarray(b.result[:]), ref, 'complete result', rtol=0, atol=tol(ref))
    ctx.label(type(b).__name__)
    ctx.interesting(len(ref) > 1 and len({str(o) for o in d['ops']}) > 1)


# ------------------------------------------------------------------------------- bands

NORMAL = [0, 1, 2, 3, 4, 8, 12]


@st.composite
def bands(draw):
    d = draw(beamformer(g=draw(st.sampled_from([zoo.rect_grid(), zoo.rect_grid3d(), zoo.any_grid()])), kinds=NORMAL))
    f = d['f']
    num = draw(st.sampled_from([0, 0, 1, 3, 12, 24, 2, 'list', 'list']))
    c = draw(st.sampled_from(f) | fl(10, 5000, 1) | st.sampled_from([500.0, 800.0, 1000.0]))
    if num == 'list':
        # both ends may be lines
        num = sorted([draw(st.sampled_from(f) | fl(10, 5000, 1)), draw(st.sampled_from(f) | fl(10, 5000, 1))])
    return d | {'c': c, 'num': num}


def expected_band(f, num, c):
    """Lines of the band, whether a warning is due; the lines on the border are unclear by rounding only for 1/n octave bands."""
    f = np.array(f)
    if num == 0:
        above = f >= c
        sel = np.zeros(len(f), bool)
        if above.any():
            sel[above.argmax()] = True
        return sel, not (f == c).any()
    lo, hi = num if isinstance(num, list) else (c * 2.0 ** (-0.5 / num), c * 2.0 ** (0.5 / num))
    sel = (lo <= f) & (f < hi)
    return sel, not sel.any()


@subcheck(P, 'bands', bands(), quick=250, rule='the band contains some but not all of several lines')
def bands_(d, ctx):
    ref = alone(d)
    b = make(d)
    sel, warned = expected_band(d['f'], d['num'], d['c'])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = b.synthetic(d['c'], d['num'])
    ctx.equal(bool([x for x in w if 'Queried frequency' in str(x.message)]), bool(warned), 'warned')
    ctx.shape(got, tuple(b.steer.grid.shape), 'map')
    ctx.close(got, ref[sel].sum(0).reshape(b.steer.grid.shape), f'band {d["num"]} of {d["c"]} Hz', rtol=0, atol=len(ref) * tol(ref))
    ctx.label(f'num {"bounds" if isinstance(d["num"], list) else d["num"]}', 'empty' if warned else 'lines')
    ctx.interesting(0 < sel.sum() < len(sel))


@st.composite
def contiguous(draw):
    d = draw(beamformer(g=zoo.rect_grid(), kinds=NORMAL))
    n = draw(st.sampled_from([1, 3, 12]))
    return d | {'num': n, 'first': draw(st.integers(-20, -1)), 'base': draw(st.sampled_from([1000.0, 500.0]))}


@subcheck(P, 'partition', contiguous(), quick=120, rule='lines in more than one band')
def partition_(d, ctx):
    """Neighbouring bands share no line and miss none."""
    ref = alone(d)
    b = make(d)
    f = np.array(d['f'])
    num = d['num']
    lo = int(np.floor(num * np.log2(f[0] / 1000.0))) - 1
    hi = int(np.ceil(num * np.log2(f[-1] / 1000.0))) + 1
    total, bands_hit, count = 0, 0, 0
    edges = [1000.0 * 2.0 ** ((k - 0.5) / num) for k in range(lo, hi + 2)]
    if np.abs(f[:, None] / np.array(edges) - 1).min() < 1e-12:
        ctx.label('on a border')
        return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k in range(lo, hi + 1):
            m = b.synthetic(1000.0 * 2.0 ** (k / num), num)
            total = total + m
            bands_hit += bool(np.any(m))
    ctx.close(total, ref.sum(0).reshape(total.shape), 'sum of all bands', rtol=0, atol=2 * len(ref) * tol(ref))
    ctx.interesting(bands_hit > 1)


# ------------------------------------------------------------------------------- integrated spectra


@st.composite
def spectra(draw):
    """Real cross spectral matrices, whose range of frequencies can be restricted, and imported ones."""
    g = draw(zoo.rect_grid())
    s = draw(zoo.steer(lo=3, hi=4, e=zoo.plain_env(), g=st.just(g)))
    d = {'steer': s, 'n': draw(st.integers(128, 300)), 'seed': draw(zoo.seeds), 'r_diag': draw(st.booleans()), 'range': draw(st.sampled_from(['default', 'indices', 'indices', 'freq'])), 'lo': draw(st.integers(0, 63)), 'import': draw(st.booleans())}
    d['hi'] = draw(st.none() | st.integers(d['lo'] + 1, 64) | st.just(-1) | st.just(-2))
    if d['range'] == 'indices' and draw(st.integers(0, 3)) == 0:  # counted from the end
        d['lo'] -= 65
        d['hi'] = draw(st.none() | st.integers(min(-1, d['lo'] + 1), -1))
    a = g['a']
    x = [draw(fl(a['x_min'] - 0.1, a['x_max'] + 0.1)) for _ in range(2)]
    y = [draw(fl(a['y_min'] - 0.1, a['y_max'] + 0.1)) for _ in range(2)]
    d['sector'] = draw(st.sampled_from(['rect', 'circle', 'RectSector', 'CircSector']))
    d['pos'] = [*x, *y, draw(fl(0.05, 1.0))]
    d['frange'] = draw(st.sampled_from([None, None, 'range', 'bands']))
    f = st.sampled_from([1000.0 * i for i in range(1, 32)]) | fl(100, 33000, 1)
    d['bounds'] = sorted([draw(f), draw(f)]) if d['frange'] == 'range' else [draw(f) for _ in range(draw(st.integers(1, 3)))]
    d['num'] = draw(st.sampled_from([1, 3, 2]))
    d['read'] = draw(st.sampled_from(['no', 'all', 'one', 'twice']))
    return d


@subcheck(P, 'integrated_spectra', spectra(), quick=250, rule='a sector with some of the grid points, several lines')
def spectra_(d, ctx):
    steer = zoo.build(d['steer'])
    r = np.random.RandomState(d['seed'])
    nm = steer.mics.num_mics
    fs = 64000.0
    kw = {}
    if d['range'] == 'indices':
        hi = d['hi']
        if not np.arange(65)[d['lo'] : hi].size:
            ctx.discard()
        kw = {'ind_low': d['lo'], 'ind_high': hi}
    elif d['range'] == 'freq':
        kw = {'freq_range': (500.0 * d['lo'] - 1, None if d['hi'] is None else 500.0 * min(d['lo'] + 2, 63) + 1)}
    ps = ac.PowerSpectra(source=ac.TimeSamples(data=r.standard_normal((d['n'], nm)), sample_freq=fs), block_size=128, **kw)
    lo, hi = {'default': (1, -1), 'indices': (d['lo'], d['hi']), 'freq': (d['lo'], None if d['hi'] is None else min(d['lo'] + 3, 64))}[d['range']]
    lines = np.arange(65)[lo:hi]
    if d['import']:
        ps = ac.PowerSpectraImport(csm=np.array(ps.csm), frequencies=np.array(ps.fftfreq()))
        lines = np.arange(65)
    b = ac.BeamformerBase(freq_data=ps, steer=steer, r_diag=d['r_diag'])
    x1, x2, y1, y2, rad = d['pos']
    if d['sector'] in ('rect', 'circle'):  # corners and centres outside are refused
        (x1, x2), (y1, y2) = np.clip([x1, x2], steer.grid.x_min, steer.grid.x_max), np.clip([y1, y2], steer.grid.y_min, steer.grid.y_max)
    if d['sector'] == 'rect':
        sector = [x1, y1, x2, y2]
    elif d['sector'] == 'circle':
        sector = [x1, y1, rad]
    elif d['sector'] == 'RectSector':
        sector = ac.RectSector(x_min=min(x1, x2), x_max=max(x1, x2), y_min=min(y1, y2), y_max=max(y1, y2))
    else:
        sector = ac.CircSector(x=x1, y=y1, r=rad)
    grid = steer.grid
    mask = np.zeros(grid.shape, bool)
    # the points of a sector are the subject of another property
    mask[grid.subdomain(sector) if isinstance(sector, ac.Sector) else grid.indices(*sector)] = True
    mask = mask.reshape(-1)
    ref = np.array(ac.BeamformerBase(freq_data=bf.import_csm(ps.csm[:], ps.fftfreq()), steer=steer, r_diag=d['r_diag']).result[:])
    spectrum = ref[:, mask].sum(1)
    at = len(mask) * tol(ref)
    f = ps.fftfreq()
    if d['read'] == 'all':
        b.result[:]
    elif d['read'] == 'one':
        b.result[3]
    for _ in range(2 if d['read'] == 'twice' else 1):
        if d['frange'] is None:
            want = np.zeros(65)
            want[lines] = spectrum[lines]
            got = b.integrate(sector)
            ctx.shape(got, (65,), 'spectrum')
        elif d['frange'] == 'range':
            sel = (f >= d['bounds'][0]) & (f < d['bounds'][1])
            ff, got = b.integrate(sector, d['bounds'])
            ctx.same(np.array(ff), f[sel], 'frequencies')
            want = spectrum[sel]
        else:
            want = np.array([spectrum[expected_band(f, d['num'], c)[0]].sum() for c in d['bounds']])
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = b.integrate(sector, d['bounds'], d['num'])
        ctx.shape(got, want.shape, 'spectrum')
        ctx.close(got, want, f'integrated {d["frange"]}', rtol=0, atol=at)
    # the function for data that exist already
    ctx.close(ac.integrate(ref, grid, sector), spectrum, 'integrate()', rtol=0, atol=at)
    ctx.close(ac.integrate(ref[2], grid, sector), spectrum[2], 'integrate() of one map', rtol=0, atol=at)
    ctx.close(ac.integrate(ref[2].reshape(grid.shape), grid, sector), spectrum[2], 'integrate() of one map with the shape of the grid', rtol=0, atol=at)
    ctx.label(d['sector'], str(d['frange']), d['range'])
    ctx.interesting(0 < mask.sum() < len(mask))


# ------------------------------------------------------------------------------- levels


@st.composite
def levels(draw):
    v = st.sampled_from([0.0, 4e-10, 1.0, -1.0, 1e-300, 4e-45, 3.9e-45, -0.0]) | st.floats(0, 1e6, allow_subnormal=False) | st.floats(1e-20, 1e-3)
    return {'x': draw(st.lists(v, min_size=1, max_size=6)), 'form': draw(st.sampled_from(['array', 'scalar', '2d', 'float32']))}


@subcheck(P, 'levels', levels(), quick=300, rule='a positive value')
def levels_(d, ctx):
    """Levels relative to (20 uPa)^2, not below -350 dB."""
    x = np.array(d['x'], np.float32 if d['form'] == 'float32' else float)
    if d['form'] == 'scalar':
        x = x[0]
    elif d['form'] == '2d':
        x = np.stack([x, x[::-1]])
    before = np.array(x, copy=True)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        got = ac.L_p(x)
    ctx.same(np.asarray(x), before, 'argument')
    ctx.shape(np.asarray(got), before.shape, 'levels')
    xx = np.atleast_1d(before).astype(float).reshape(-1)
    want = [max(-350.0, 10 * np.log10(v / 4e-10)) if v / 4e-10 > 1e-35 else -350.0 for v in xx]
    ctx.close(np.atleast_1d(np.asarray(got, float)).reshape(-1), np.array(want), 'levels', rtol=0, atol=1e-3 if d['form'] == 'float32' else 1e-9)
    order = np.argsort(xx)
    ctx.check((np.diff(np.atleast_1d(got).reshape(-1)[order]) >= -1e-4).all(), 'levels do not increase with the values')
    ctx.interesting((xx > 0).any())
