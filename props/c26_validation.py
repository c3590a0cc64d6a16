"""C26 configuration switches are validated; objects whose inputs do not fit refuse to calculate."""

import os
import warnings

import numpy as np
from hypothesis import strategies as st
from traits.api import TraitError

import acoular as ac
from vlib import bf, zoo
from vlib.core import subcheck
from vlib.zoo import fl

P = 'C26'
rng = np.random.RandomState


# ------------------------------------------------------------------------------ configuration
CACHING = ['individual', 'all', 'none', 'readonly', 'overwrite']
LIBS = ['pytables', 'tables', 'h5py']
NOT_CACHING = ['All', 'NONE', '', 'read-only', 'off', 'individual ', None, 0, True, 1.5]
NOT_LIB = ['PyTables', 'H5py', 'hdf5', '', None, 1, 'netcdf']


@st.composite
def config_history(draw):
    op = st.one_of(
        st.tuples(st.just('global_caching'), st.sampled_from(CACHING + NOT_CACHING)),
        st.tuples(st.just('h5library'), st.sampled_from(LIBS + NOT_LIB)),
        st.tuples(st.just('cache_dir'), st.sampled_from(['a', 'b', 'c d', 'missing/deep', 3, None])),
        st.tuples(st.just('td_dir'), st.sampled_from(['a', 'b', 4, None])),
        st.tuples(st.just('use_traitsui'), st.sampled_from([False, 'yes', None, 2.5])),
        st.tuples(st.just('nonsense'), st.just(1)),
    )
    return {'ops': [list(o) for o in draw(st.lists(op, min_size=1, max_size=12))]}


@subcheck(P, 'config', config_history(), quick=600, rule='at least one refused and one accepted assignment')
def config_(d, ctx):
    """Any history of assignments against a model: accepted values are in force, others raise and change nothing."""
    c = ac.config
    model = {'global_caching': c.global_caching, 'h5library': c.h5library, 'cache_dir': c.cache_dir, 'td_dir': c.td_dir, 'use_traitsui': c.use_traitsui}
    ok = bad = 0
    for name, v in d['ops']:
        if name == 'global_caching':
            valid = type(v) is str and v in CACHING
        elif name == 'h5library':
            valid = type(v) is str and v in LIBS
        elif name in ('cache_dir', 'td_dir'):
            valid = isinstance(v, str) and 'missing' not in v
            if isinstance(v, str):
                v = ctx.path(v)
        elif name == 'use_traitsui':
            valid = v is False
        else:
            valid = False
        try:
            setattr(c, name, v)
            raised = None
        except Exception as e:  # noqa: BLE001
            raised = e
        if valid:
            ctx.check(raised is None, lambda: f'config.{name} = {v!r} raises {raised!r}')
            model[name] = v
            ok += 1
            if name == 'cache_dir':
                ctx.check(os.path.isdir(v), 'the cache directory does not exist after it was set')
        else:
            ctx.check(raised is not None, lambda: f'config.{name} = {v!r} is accepted')
            bad += 1
        for k, m in model.items():
            ctx.equal(getattr(c, k), m, f'config.{k} after config.{name} = {v!r}')
    ctx.interesting(ok and bad)


@st.composite
def config_effect(draw):
    return {'data': draw(zoo.arrays([draw(st.integers(140, 300)), 2], kinds=('normal',))), 'caching': draw(st.sampled_from(CACHING)), 'lib': draw(st.sampled_from(LIBS)), 'cached': draw(st.booleans()),
            'what': draw(st.sampled_from(['Cache', 'PowerSpectra', 'WriteH5', 'Beamformer']))}


@subcheck(P, 'config-effect', config_effect(), quick=80, rule='a file has to be written')
def config_effect_(d, ctx):
    """The switches take effect: which files appear, and with which library they are written."""
    c = ac.config
    c.h5library = d['lib']
    c.global_caching = d['caching']
    cd = ctx.path('cachedir')
    c.cache_dir = cd
    c.td_dir = ctx.path('td')
    os.makedirs(c.td_dir)
    src = ac.TimeSamples(data=zoo.arr(d['data']), sample_freq=1000.0)
    def files(p):
        return sorted(os.listdir(p))
    writing = d['caching'] in ('all', 'overwrite') or (d['caching'] == 'individual' and d['cached'])
    if d['what'] == 'Cache':
        zoo.full(ac.Cache(source=src), 50)
        writing = d['caching'] in ('individual', 'all', 'overwrite')
    elif d['what'] == 'PowerSpectra':
        np.array(ac.PowerSpectra(source=src, block_size=128, cached=d['cached']).csm[:])
    elif d['what'] == 'Beamformer':
        ps = ac.PowerSpectra(source=src, block_size=128, cached=False)
        m = ac.MicGeom(pos_total=np.array([[0.0, 1.0], [0.0, 0.0], [0.0, 0.0]]))
        b = ac.BeamformerBase(freq_data=ps, steer=ac.SteeringVector(grid=ac.RectGrid(increment=1.0), mics=m), cached=d['cached'])
        np.array(b.result[3])
    else:
        w = ac.WriteH5(source=src)
        w.save()
        ctx.equal(len(files(c.td_dir)), 1, 'number of files in td_dir')
        ctx.equal(os.path.dirname(w.file), c.td_dir, 'folder of the file written')
        writing = False
    made = files(cd)
    ctx.check(bool(made) == writing, lambda: f'{d["what"]} with global_caching={d["caching"]!r} and cached={d["cached"]}: cache files {made}')
    from acoular.h5files import _get_cachefile_class, _get_h5file_class

    want = 'H5py' if d['lib'] == 'h5py' else 'Tables'
    ctx.check(want.lower() in _get_h5file_class().__name__.lower() and want.lower() in _get_cachefile_class().__name__.lower(), 'classes of the library chosen are used')
    ctx.label(d['what'])
    ctx.interesting(writing or d['what'] == 'WriteH5')


# ------------------------------------------------------------------------------ mismatched inputs
SCN = {}


def scn(name):
    def deco(f):
        SCN[name] = f
        return f

    return deco


def gen(o, num=7):
    return zoo.full(o, num)


def change(o, name, bad, good):
    """One mismatch: the attribute to change, a value that does not fit and the one that does."""
    return (f'{name}={bad if not hasattr(bad, "shape") else bad.shape}', lambda: setattr(o, name, bad), lambda: setattr(o, name, good))


def ts(r, n, c, fs=100.0):
    return ac.TimeSamples(data=r.standard_normal((n, c)), sample_freq=fs)


def mics(r, m):
    return ac.MicGeom(pos_total=r.uniform(-0.5, 0.5, (3, m)))


def rect(n=2):
    return ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.2, y_max=0.2, z=1.0, increment=0.4 / (n - 1))


@scn('SourceMixer')
def _(r, n, c, k):
    a, b = ts(r, n, c), ts(r, n, c)
    m = ac.SourceMixer(sources=[a, b])
    return lambda: gen(m), [change(m, 'sources', [a, ts(r, n, c, 99.0)], [a, b]), change(m, 'sources', [ts(r, n, c + k), b], [a, b]), change(m, 'sources', [a, ts(r, n + k, c)], [a, b]),
                            change(m, 'weights', np.ones(2 + k), np.ones(2)), change(m, 'weights', np.ones(1), np.ones(2)), change(m, 'sources', [], [a, b])]


@scn('Mixer')
def _(r, n, c, k):
    a, b = ts(r, n, c), ts(r, n, c)
    m = ac.Mixer(source=a, sources=[b])
    return lambda: gen(m), [change(m, 'sources', [ts(r, n, c, 99.0)], [b]), change(m, 'sources', [b, ts(r, n, c + k)], [b]), change(m, 'source', ts(r, n, c + k), a), change(b, 'sample_freq', 1.0, 100.0)]


@scn('ChannelMixer')
def _(r, n, c, k):
    a = ts(r, n, c)
    m = ac.ChannelMixer(source=a, weights=np.ones(c))
    out = [change(m, 'weights', np.ones(c + k), np.ones(c))]
    if c > 1:
        out += [change(m, 'source', ts(r, n, c + k), a), change(m, 'weights', np.ones((c, 2)), np.ones(c))]
    return lambda: gen(m), out


@scn('TimeConvolve')
def _(r, n, c, k):
    a = ts(r, n, c)
    good = np.ones((5, c))
    m = ac.TimeConvolve(source=a, kernel=good)
    out = [change(m, 'kernel', np.ones((5, c + k)), good), change(m, 'kernel', np.ones((5, c, 1)), good)]
    if c > 1:
        out.append(change(m, 'source', ts(r, n, c + k), a))
    return lambda: gen(m), out


@scn('PointSourceConvolve')
def _(r, n, c, k):
    good = np.ones((3, c))
    s = ac.PointSourceConvolve(signal=ac.WNoiseGenerator(sample_freq=10.0, num_samples=n), mics=mics(r, c), kernel=good)
    return lambda: gen(s), [change(s, 'kernel', np.ones((3, c + k)), good)]


@scn('UncorrelatedNoiseSource')
def _(r, n, c, k):
    g = np.arange(c)
    s = ac.UncorrelatedNoiseSource(signal=ac.WNoiseGenerator(sample_freq=10.0, num_samples=n), mics=mics(r, c), seed=g)
    return lambda: gen(s), [change(s, 'seed', np.arange(c + k), g), change(s, 'seed', np.zeros((c, 2), int), g)]


@scn('Calib')
def _(r, n, c, k):
    a = ts(r, n, c)
    m = ac.Calib(source=a, data=np.arange(1.0, c + 1))
    out = [change(m, 'data', np.ones(c + k), np.arange(1.0, c + 1)), change(m, 'source', ts(r, n, c + k), a), ('one channel too few', lambda: m.trait_set(invalid_channels=[0]), lambda: m.trait_set(invalid_channels=[]))]
    return lambda: gen(m), out


@scn('MaskedTimeSamples-calib')
def _(r, n, c, k):
    m = ac.MaskedTimeSamples(data=r.standard_normal((n, c)), sample_freq=10.0)
    good = ac.Calib(data=np.arange(1.0, c + 1))
    m.calib = good
    t = ac.TimeSamples(data=r.standard_normal((n, c)), sample_freq=10.0, calib=good)
    return lambda: np.hstack([gen(m), gen(t)]), [change(m, 'calib', ac.Calib(data=np.ones(c + k)), good), change(t, 'calib', ac.Calib(data=np.ones(c + k)), good)]


@scn('empty-selection')
def _(r, n, c, k):
    s = r.randint(0, n)
    m = ac.MaskedTimeSamples(data=r.standard_normal((n, c)), sample_freq=10.0, start=s)
    o = ac.MaskedTimeOut(source=ts(r, n, c), start=s)
    both = []
    for q in (m, o):
        both += [change(q, 'start', n + k - 1, s), change(q, 'stop', s, None), change(q, 'stop', -n, None), change(q, 'start', 'x', s), change(q, 'invalid_channels', ['a'], [])]
    return lambda: np.hstack([gen(m), gen(o)]), both


@scn('SphericalHarmonicSource')
def _(r, n, c, k):
    l = k % 3
    good = r.standard_normal((l + 1) ** 2)
    s = ac.SphericalHarmonicSource(signal=ac.WNoiseGenerator(sample_freq=10.0, num_samples=n), mics=mics(r, c), lOrder=l, alpha=good)
    return lambda: gen(s), [change(s, 'alpha', np.ones((l + 1) ** 2 + k), good), change(s, 'lOrder', l + k, l)]


@scn('LineSource')
def _(r, n, c, k):
    ns = 1 + n % 3
    good = np.ones(ns)
    kw = dict(signal=ac.WNoiseGenerator(sample_freq=4.0, num_samples=n + 5), mics=mics(r, c), num_sources=ns, source_strength=good, length=0.3)
    s = ac.LineSource(**kw)
    t = ac.MovingLineSource(**kw, trajectory=ac.Trajectory(points={-10.0: (0.0, 0.0, 1.0), 200.0: (0.1, 0.0, 1.0)}))
    out = []
    for q in (s, t):
        out += [change(q, 'source_strength', np.ones(ns + k), good), change(q, 'num_sources', ns + k, ns), change(q, 'coherence', 'partial', 'coherent')]
    return lambda: np.concatenate([gen(s).ravel(), gen(t).ravel()]), out


@scn('filter-bands')
def _(r, n, c, k):
    a = ts(r, n + 60, c)
    f = ac.FiltOctave(source=a, band=20.0)
    g = ac.FiltFiltOctave(source=a, band=20.0)
    h = ac.OctaveFilterBank(source=a, lband=10, hband=15)
    out = [change(f, 'band', 36.0 + k, 20.0), change(g, 'band', 36.0 + k, 20.0), change(h, 'hband', 16 + k, 15), change(f, 'fraction', 'Half', 'Octave'), change(f, 'order', 2.5, 3), change(a, 'sample_freq', 20.0 / k, 100.0)]
    return lambda: np.hstack([gen(f), gen(g), gen(h)]), out


@scn('RFFT-IRFFT')
def _(r, n, c, k):
    b = 2 * (1 + n % 5)
    a = ts(r, n + 60, c)
    f = ac.RFFT(source=a, block_size=b)
    i = ac.IRFFT(source=f)
    return lambda: gen(i), [change(f, 'block_size', b + 1, b), change(f, 'block_size', b + 2 * k - 1, b), change(f, 'window', 'Kaiser', 'Rectangular'), change(f, 'block_size', 0, b)]


@scn('PowerSpectra')
def _(r, n, c, k):
    a = ts(r, 300, c)
    p = ac.PowerSpectra(source=a, block_size=128, cached=False)
    return lambda: np.array(p.csm[:]).ravel(), [change(p, 'block_size', 100, 128), change(p, 'window', 'Flat', 'Rectangular'), change(p, 'overlap', '25%', 'None'), change(p, 'precision', 'float64', 'complex128')]


@scn('PowerSpectraImport')
def _(r, n, c, k):
    f = np.arange(1.0, n + 1)
    good = np.array(r.standard_normal((n, c, c)), complex)
    p = ac.PowerSpectraImport(csm=good, frequencies=f)
    return lambda: np.array(p.csm).ravel(), [change(p, 'csm', np.ones((n, c, c + k)), good), change(p, 'csm', np.ones((c, c)), good), change(p, 'csm', np.ones((n, c, c, 1)), good),
                                             change(p, 'source', ts(r, n, c), None), change(p, 'block_size', 128, None)]


@scn('import-frequencies')
def _(r, n, c, k):
    c = c + 1
    f = np.arange(1.0, n + 1)
    m = mics(r, c)
    x = r.standard_normal((n, c, c))
    p = ac.PowerSpectraImport(csm=x @ x.transpose(0, 2, 1) + 0j, frequencies=f)
    b = ac.BeamformerBase(freq_data=p, steer=ac.SteeringVector(grid=rect(), mics=m), cached=False, r_diag=False)
    return lambda: np.array(b.result[:]), [change(p, 'frequencies', np.arange(1.0, n + 1 + k), f), change(p, 'frequencies', 'x', f)]


FREQ = {
    'BeamformerBase': {}, 'BeamformerFunctional': {'gamma': 2.0}, 'BeamformerCapon': {}, 'BeamformerEig': {'n': -1}, 'BeamformerMusic': {'n': 1}, 'BeamformerDamas': {'n_iter': 3},
    'BeamformerDamasPlus': {'method': 'NNLS'}, 'BeamformerOrth': {'eva_list': np.array([-1])}, 'BeamformerCleansc': {}, 'BeamformerClean': {'n_iter': 3}, 'BeamformerCMF': {'method': 'NNLS', 'n_iter': 5},
    'BeamformerSODIX': {'n_iter': 2}, 'BeamformerGIB': {'n_iter': 1, 'n': 1},
}


@scn('frequency-beamformers')
def _(r, n, c, k):
    name = sorted(FREQ)[n % len(FREQ)]
    c = c + 1
    f = [500.0]
    x = r.standard_normal((1, c, 2 * c)) + 1j * r.standard_normal((1, c, 2 * c))
    p = ac.PowerSpectraImport(csm=x @ x.conj().transpose(0, 2, 1), frequencies=np.array(f))
    m = mics(r, c)
    st_ = ac.SteeringVector(grid=rect(), mics=m)
    b = getattr(ac, name)(freq_data=p, steer=st_, cached=False, **FREQ[name])
    y = np.array([np.eye(c + k)], complex)
    out = [change(st_, 'mics', mics(r, c + k), m), change(b, 'steer', ac.SteeringVector(grid=rect(), mics=mics(r, c + k)), st_), change(b, 'freq_data', ac.PowerSpectraImport(csm=y, frequencies=np.array(f)), p)]
    if c > 2:
        out += [change(m, 'invalid_channels', [0], []), change(st_, 'mics', mics(r, c - 1), m)]
    if name in ('BeamformerFunctional', 'BeamformerCapon', 'BeamformerMusic'):
        out.append(change(b, 'r_diag', True, False))
    out += [change(st_, 'steer_type', 'best', 'true level'), change(st_, 'ref', [0.0, 1.0], [0.0, 0.0, 0.0]), change(st_, 'ref', np.zeros((3, k)), [0.0, 0.0, 0.0]), change(b, 'precision', 'float16', 'float64')]
    return lambda: np.concatenate([np.array(b.result[:]).ravel(), np.array(b.synthetic(f[0], 0)).ravel()]), out


@scn('spectra-beamformer')
def _(r, n, c, k):
    c = c + 1
    a = ts(r, 300, c, 1000.0)
    p = ac.PowerSpectra(source=a, block_size=128, cached=False)
    m = mics(r, c)
    b = ac.BeamformerBase(freq_data=p, steer=ac.SteeringVector(grid=rect(), mics=m), cached=False)
    out = [change(p, 'source', ts(r, 300, c + k, 1000.0), a), change(p, 'source', ts(r, 300, c - 1, 1000.0), a), change(m, 'invalid_channels', [0], [])]
    return lambda: np.array(b.result[3:6]), out


TIMEBF = ['BeamformerTime', 'BeamformerTimeSq', 'BeamformerTimeTraj', 'BeamformerTimeSqTraj', 'BeamformerCleant', 'BeamformerCleantSq', 'BeamformerCleantTraj', 'BeamformerCleantSqTraj']


@scn('time-beamformers')
def _(r, n, c, k):
    name = TIMEBF[n % len(TIMEBF)]
    c = c + 1
    a = ts(r, 40, c, 2000.0)
    m = mics(r, c)
    kw = {'n_iter': 2} if 'Cleant' in name else {}
    if 'Traj' in name:
        kw['trajectory'] = ac.Trajectory(points={-1.0: (-0.1, 0.0, 0.2), 0.0: (0.0, 0.0, 0.2), 1.0: (0.1, 0.0, 0.2)})
    st_ = ac.SteeringVector(grid=rect(), mics=m)
    b = getattr(ac, name)(source=a, steer=st_, **kw)
    out = [change(b, 'source', ts(r, 40, c + k, 2000.0), a), change(b, 'source', ts(r, 40, c - 1, 2000.0), a), change(st_, 'mics', mics(r, c + k), m), change(m, 'invalid_channels', [c - 1], [])]
    return lambda: gen(b, 13), out


@scn('SpatialInterpolator')
def _(r, n, c, k):
    c = c + 3
    a = ts(r, n, c)
    phi = np.arange(c) * 2 * np.pi / c
    m = ac.MicGeom(pos_total=np.array([np.cos(phi), np.sin(phi), 0 * phi]))
    s = ac.SpatialInterpolatorConstantRotation(source=a, mics=m, array_dimension='ring', method='linear', rotational_speed=0.0)
    t = ac.SpatialInterpolatorConstantRotation(source=a, mics=m, array_dimension='ring', method='linear', rotational_speed=1.0)
    psi = np.arange(c + k) * 2 * np.pi / (c + k)
    other = ac.MicGeom(pos_total=np.array([np.cos(psi), np.sin(psi), 0 * psi]))
    out = []
    for q in (s, t):
        out += [change(q, 'source', ts(r, n, c + k), a), change(q, 'source', ts(r, n, c - 1), a), change(q, 'mics', other, m), change(q, 'method', 'magic', 'linear'), change(q, 'array_dimension', '4D', q.array_dimension)]
    return lambda: np.hstack([gen(s), gen(t)]), out


@scn('Trigger')
def _(r, n, c, k):
    x = np.zeros((400, 1))
    x[5 + n % 20::40] = 1.0
    a = ac.TimeSamples(data=x, sample_freq=100.0)
    t = ac.Trigger(source=a, threshold=0.5)
    two = ac.TimeSamples(data=np.hstack([x] * (1 + k)), sample_freq=100.0)
    return lambda: np.array(t.trigger_data[0], float), [change(t, 'source', two, a), change(t, 'threshold', 2.0, 0.5), change(t, 'trigger_type', 'edge', 'dirac')]


@scn('geometry')
def _(r, n, c, k):
    p = r.uniform(-1, 1, (3, c))
    m = ac.MicGeom(pos_total=p)
    g3 = ac.RectGrid3D(x_min=0, x_max=1, y_min=0, y_max=1, z_min=0, z_max=1, increment=0.5)
    ig = ac.ImportGrid(pos=p)
    q = r.uniform(-1, 1, (3 + k, c))
    out = [change(m, 'pos_total', q, p), change(m, 'pos_total', p[:2], p), change(m, 'pos_total', p[0], p), change(g3, 'increment', [0.5, 0.5], 0.5), change(g3, 'increment', 'x', 0.5), change(g3, 'increment', [0.5] * (3 + k), 0.5),
           change(ig, 'pos', q, p), change(ig, 'pos', p[0], p), change(m, 'file', '/nonexistent/x.xml', ''), change(ig, 'file', '/nonexistent/x.xml', '')]
    return lambda: np.hstack([m.pos, g3.pos, ig.pos, np.array(ig.shape * 3).reshape(3, 1)]), [o for o in out if 'file' not in o[0]] + [(o[0], o[1], lambda: None) for o in out if 'file' in o[0]]


@scn('grid-queries')
def _(r, n, c, k):
    g = ac.RectGrid(x_min=-1, x_max=1, y_min=0, y_max=2, increment=0.5)
    h = ac.RectGrid3D(x_min=-1, x_max=1, y_min=0, y_max=2, z_min=1, z_max=2, increment=0.5)
    eps = 0.001 * k
    st_ = {'q': lambda: None}

    def q(label, f):
        return (label, lambda: st_.update(q=f), lambda: st_.update(q=lambda: None))

    out = [q('x low', lambda: g.index(-1 - eps, 1)), q('x high', lambda: g.index(1 + eps, 1)), q('y low', lambda: g.index(0, -eps)), q('y high', lambda: g.index(0, 2 + eps)), q('z high', lambda: h.index(0, 1, 2 + eps)), q('z low', lambda: h.index(0, 1, 1 - eps)),
           q('rect outside', lambda: g.indices(-1 - eps, 0, 0, 1)), q('box outside', lambda: h.indices(0, 0, 1, 1, 1, 2 + eps)), q('polygon', lambda: ac.grids.Polygon([0.0] * (3 + k), [0.0] * 3)), q('point lists', lambda: ac.grids.Polygon([0.0, 1.0, 0.5], [0.0, 0.0, 1.0]).is_inside(np.zeros(c + k), np.zeros(c)))]

    def read():
        st_['q']()
        return np.array([*g.index(0.5, 1), *h.index(0.5, 1, 1.5)], float)

    return read, out


@scn('integrate')
def _(r, n, c, k):
    c = c + 1
    p = ac.PowerSpectraImport(csm=np.array([np.eye(c), 2 * np.eye(c)], complex), frequencies=np.array([100.0, 200.0]))
    m = mics(r, c)
    b = ac.BeamformerBase(freq_data=p, steer=ac.SteeringVector(grid=rect(), mics=m), cached=False, r_diag=False)
    lb = ac.BeamformerBase(freq_data=p, steer=ac.SteeringVector(grid=ac.LineGrid(loc=(0.0, 0.0, 1.0), num_points=3), mics=m), cached=False, r_diag=False)
    st_ = {'q': lambda: None}

    def q(label, f):
        return (label, lambda: st_.update(q=f), lambda: st_.update(q=lambda: None))

    out = [q('frange of 3 values', lambda: b.integrate(ac.RectSector(), frange=(100.0, 150.0, 200.0))), q('sector data on a grid without index', lambda: lb.integrate((-0.1, -0.1, 0.1, 0.1))), q('rectangle outside', lambda: b.integrate((-5.0 - k, 0.0, 0.1, 0.1))),
           q('map integration with wrong shape', lambda: ac.integrate(np.ones((2, 4 + k)), b.steer.grid, ac.RectSector())), q('sector data for a line grid', lambda: ac.integrate(np.ones(3), lb.steer.grid, (-0.1, -0.1, 0.1, 0.1)))]

    def read():
        st_['q']()
        return np.array(b.integrate(ac.RectSector()))

    return read, out


@scn('files')
def _(r, n, c, k):
    t = ac.TimeSamples(data=r.standard_normal((n, c)), sample_freq=5.0)
    w = ac.WriteWAV(source=ac.TimeSamples(data=r.standard_normal((n, c)), sample_freq=5), channels=[0], file='out.wav')
    st_ = {'q': lambda: None}

    def q(label, f):
        return (label, lambda: st_.update(q=f), lambda: st_.update(q=lambda: None))

    def text():
        with open('text.h5', 'w') as f:
            f.write('x' * k)
        gen(ac.TimeSamples(file='text.h5'))

    out = [q('missing file', lambda: ac.TimeSamples(file='missing.h5')), q('missing masked file', lambda: ac.MaskedTimeSamples(file='missing.h5')), q('no HDF5 file', text), change(w, 'channels', [], [0]), change(w, 'channels', [c - 1 + k], [0]), q('missing array', lambda: ac.MicGeom(file='missing.xml')), q('missing grid', lambda: ac.ImportGrid(file='missing.xml')), q('missing calibration', lambda: ac.Calib(file='missing.xml'))]

    def read():
        st_['q']()
        w.save()
        return gen(t)

    return read, out


@scn('splitter')
def _(r, n, c, k):
    s = ac.SampleSplitter(source=ts(r, n, c))
    o = ac.TimePower(source=s)
    s.register_object(o)
    return lambda: gen(o), [('not registered', lambda: s.remove_object(o), lambda: s.register_object(o)), ('registered twice', lambda: s.register_object(o), lambda: None)]


@scn('sources')
def _(r, n, c, k):
    sig = ac.WNoiseGenerator(sample_freq=4.0, num_samples=n + 3)
    m = mics(r, c)
    s = ac.PointSource(signal=sig, mics=m)
    t = ac.MovingPointSource(signal=sig, mics=m, trajectory=ac.Trajectory(points={-50.0: (0.0, 0.0, 1.0), 0.0: (0.1, 0.0, 1.0), 200.0: (0.2, 0.0, 1.0)}))
    d = ac.PointSourceDipole(signal=sig, mics=m)
    out = [change(s, 'prepadding', 'mirror', 'loop'), change(t, 'prepadding', 'zeros', 'loop'), change(s, 'signal', None, sig), change(s, 'mics', None, m), change(d, 'direction', (1.0, 0.0), (0.0, 0.0, 1.0)), change(s, 'loc', (1.0, 2.0), (0.0, 0.0, 1.0)), change(s, 'mics', ts(r, n, c), m), change(s, 'signal', ts(r, n, c), sig), change(t, 'trajectory', None, t.trajectory)]
    return lambda: np.concatenate([gen(q).ravel() for q in (s, t, d)]), out


@scn('metrics')
def _(r, n, c, k):
    g = rect(3)
    good = np.abs(r.standard_normal((2, 9)))
    loc = np.array([[0.0], [0.0], [1.0]])
    me = ac.tools.MetricEvaluator(grid=g, data=good, target_grid=ac.ImportGrid(pos=loc), target_data=np.ones((2, 1)), sector=ac.CircSector(r=0.1))
    out = [change(me, 'data', np.ones((2, 9 + k)), good), change(me, 'target_data', np.ones((2, 1 + k)), np.ones((2, 1))), change(me, 'target_data', np.ones((2 + k, 1)), np.ones((2, 1)))]
    return lambda: np.concatenate([me.get_specific_level_error().ravel(), me.get_overall_level_error().ravel()]), out


@st.composite
def case(draw, name):
    return {'s': name, 'seed': draw(zoo.seeds), 'n': draw(st.integers(2, 30)), 'c': draw(st.integers(1, 4)), 'k': draw(st.integers(1, 3)), 'order': draw(st.lists(st.integers(0, 40), min_size=1, max_size=6))}


def run(d, ctx):
    """Mismatches in any order, each taken back: refused every time, and the objects work again afterwards."""
    ac.config.global_caching = 'none'
    os.chdir(ctx.tmp)
    read, bads = SCN[d['s']](rng(d['seed']), d['n'], d['c'], d['k'])
    ref = np.array(read())
    for i in d['order']:
        label, bad, good = bads[i % len(bads)]
        try:
            bad()
            out = read()
        except Exception as e:  # noqa: BLE001
            ctx.label(type(e).__name__)
        else:
            ctx.fail(f'{d["s"]}: {label} is accepted and gives {np.array(out).shape} (valid: {ref.shape})')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            good()
            ctx.same(np.array(read()), ref, f'{d["s"]}: result after {label} was taken back')
    ctx.interesting()


HEAVY = {'frequency-beamformers': 400, 'time-beamformers': 300, 'spectra-beamformer': 60, 'SpatialInterpolator': 100, 'filter-bands': 100}
for _n in SCN:
    subcheck(P, _n, case(_n), quick=HEAVY.get(_n, 120), rule='a mismatch was refused and taken back')(run)
