"""Object trees of every kind, alternatives for each of their parameters, and readers of everything they compute."""

import copy
import inspect
import warnings

import numpy as np
from hypothesis import strategies as st
from traits.api import HasTraits

import acoular as ac
from acoular.tools import MetricEvaluator
from vlib import bf, zoo
from vlib.zoo import S, fl

ac.MetricEvaluator = MetricEvaluator  # so that specs can name it


# -------------------------------------------------------------------------------- alternatives
# class -> {trait or 'a+b' for traits that are set together: function(attributes of the spec) -> strategy of the value(s)}
def one(*v):
    return lambda a: st.sampled_from(v)


def like(a, key, kinds=('normal', 'int', 'uniform')):
    """An array of the same shape: other content, or a single element changed, if only a bit."""
    d = a.get(key)
    if d is None:
        return st.nothing()
    if 'lit' in d:
        x = np.array(d['lit'], float)
        return st.tuples(st.integers(0, max(0, x.size - 1)), st.sampled_from([0.5, -0.25, 1e-3])).map(lambda t: _poked(d, *t))
    base = {k: v for k, v in d.items() if k != 'poke'}
    return st.one_of(
        zoo.seeds.map(lambda s: {**base, 'seed': s}),
        st.tuples(st.integers(0, 10**6), st.sampled_from([1.0, -0.5, 1e-3, 1e-6])).map(lambda t: {**base, 'poke': list(t)}),
    )


def _poked(d, i, delta):
    x = np.array(d['lit'], float)
    if x.size:
        x.flat[i] += delta
    return {**d, 'lit': np.round(x, 9).tolist()}


def _cols(d):
    return d['shape'][1] if 'shape' in d else len(d['lit'][0])


def samples(a):
    d = a['data']
    if 'lit' in d:
        return like(a, 'data')
    n = d['shape'][0]
    return st.one_of(like(a, 'data'), like(a, 'data'), st.tuples(st.integers(max(1, n - 3), n + 3), zoo.seeds).map(lambda t: {**d, 'shape': [t[0], *d['shape'][1:]], 'seed': t[1]}))


def slower(a):
    """Other sampling rates; not larger, so that delays stay within the signals."""
    f = a['sample_freq']
    return st.sampled_from([f / 2, f * 0.9, f * 0.999])


def choice(f):
    return lambda a: f


TUP3 = one({'tup': [0.1, 0.2, 2.0]}, {'tup': [0.3, -0.4, 1.5]}, {'tup': [-0.5, 0.5, 3.0]}, {'tup': [0.1, 0.2, 2.0001]})
DIREC = one({'tup': [0.0, 0.0, 1.0]}, {'tup': [1.0, 0.0, 0.0]}, {'tup': [0.3, -0.4, 1.2]}, {'tup': [1.0, 2.0, 0.5]})


def lit(*v):
    return one(*[{'lit': x} for x in v])


def traj_points(a):
    pts = a['points']['points']
    def shift(t):
        i, ax, d = t
        q = copy.deepcopy(pts)
        q[i % len(q)][1][ax] = round(q[i % len(q)][1][ax] + d, 6)
        return {'points': q}

    # a changed position, a later end
    return st.one_of(st.tuples(st.integers(0, 9), st.integers(0, 2), st.sampled_from([0.3, -0.1, 0.01])).map(shift), fl(0.1, 1).map(lambda d: {'points': [*copy.deepcopy(pts[:-1]), [round(pts[-1][0] + d, 4), pts[-1][1]]]}))


def signal_alts(**more):
    return {'sample_freq': slower, 'num_samples': lambda a: st.integers(a['num_samples'], a['num_samples'] + 5), **more}


NOISE = dict(rms=choice(fl(0, 4)), seed=choice(st.integers(0, 1000)))
SRC = dict(loc=TUP3, start_t=lambda a: st.sampled_from([a.get('start_t', 0.0) / 2, 0.0]), start=lambda a: st.sampled_from([a.get('start_t', 0.0) / 3, 0.0]))
LINE = {'length': choice(fl(0.1, 1.5, 2)), 'direction': DIREC, 'source_strength': lambda a: like(a, 'source_strength'),
        'num_sources+source_strength': lambda a: st.integers(1, 3).map(lambda n: {'num_sources': n, 'source_strength': {'arr': 'pos', 'shape': [n], 'seed': 3}}), 'coherence': one('coherent', 'incoherent')}
MOVE = dict(conv_amp=choice(st.booleans()))
UP = dict(up=one(1, 2, 16))
PAD = dict(prepadding=one('loop', 'zeros'))
FD = dict(precision=one('float64', 'float32'), r_diag=choice(st.booleans()), r_diag_norm=choice(fl(0, 3)))
SOLVER = dict(FD, n_iter=choice(st.integers(1, 12)), damp=one(0.6, 0.9, 1.0, 0.3), psf_precision=one('float64', 'float32'), calcmode=one('full', 'block', 'single', 'readonly'))
INV = dict(alpha=one(0.0, 0.1, 0.5), n_iter=choice(st.integers(1, 8)), unit_mult=one(1e9, 1.0, 1e5))
SPEC = dict(window=one('Rectangular', 'Hanning', 'Hamming', 'Bartlett', 'Blackman'), overlap=one('None', '50%', '75%', '87.5%'))
TB = dict(weights=one('none', 'function', 'power'))
TRAJ = dict(precision=one(64, 32), rvec=lit([0.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0]), conv_amp=choice(st.booleans()))
CL = dict(n_iter=choice(st.integers(0, 4)), damp=one(0.6, 1.0, 0.2))
INTERP = dict(method=one('linear', 'spline', 'rbf-multiquadric', 'rbf-cubic', 'IDW', 'sinc', 'custom'), array_dimension=one('1D', '2D', 'ring'), num_IDW=one(1, 2, 4), p_weight=one(1.0, 2.5, 0.5), interp_at_zero=choice(st.booleans()))


def lists_of(old, new, lo=1):
    """Other lists of objects: one more, one less, another order, another one in place of one."""
    n = len(old)
    return st.tuples(st.sampled_from(['add', 'drop', 'turn', 'put']), st.integers(0, 9), new).map(lambda t: _lists(copy.deepcopy(old), t[0] if n > lo else 'add', t[1] % n if n else 0, t[2]))


def _lists(old, how, i, x):
    if how == 'add':
        return [*old, x]
    if how == 'drop':
        return old[:i] + old[i + 1 :]
    if how == 'turn':
        return old[1:] + old[:1]
    return old[:i] + [x] + old[i + 1 :]


def reseed(spec, seed):
    """The same object with other random numbers inside."""
    spec = copy.deepcopy(spec)
    todo = [spec]
    while todo:
        d = todo.pop(0)
        for k, v in (d.items() if isinstance(d, dict) else enumerate(d)):
            if k == 'seed' and isinstance(v, int):
                d[k] = seed
                return spec
            if isinstance(v, (dict, list)):
                todo.append(v)
    return spec


def other_sources(a, lo):
    """Other lists of sources of the same kind."""
    if not a['sources']:
        return st.just([])
    if a.get('weights', {'lit': []}) != {'lit': []}:
        return st.just(a['sources'][1:] + a['sources'][:1])
    return lists_of(a['sources'], st.tuples(st.sampled_from(a['sources']), st.integers(1000, 2000)).map(lambda t: reseed(*t)), lo)


def masked_part(a):
    return st.one_of(st.none(), st.integers(-20, -1), st.integers(1, 30))


ALTS = {
    # signals
    'WNoiseGenerator': signal_alts(**NOISE),
    'PNoiseGenerator': signal_alts(**NOISE, depth=choice(st.integers(1, 16))),
    'FiltWNoiseGenerator': signal_alts(**NOISE, ar=lit([], [1.0, -0.5], [1.0, -0.3, 0.02]), ma=lit([], [1.0, 0.5, 0.25], [0.5, 0.5])),
    'SineGenerator': signal_alts(freq=lambda a: fl(0.01, 0.45).map(lambda x: round(x * a['sample_freq'], 4)), phase=choice(fl(-7, 7)), amplitude=choice(fl(-5, 5))),
    'GenericSignalGenerator': dict(num_samples=lambda a: st.integers(a['num_samples'], a['num_samples'] + 5), amplitude=choice(fl(-3, 3)), loop_signal=choice(st.booleans())),
    # sources
    'TimeSamples': dict(data=samples, sample_freq=slower),
    'MaskedTimeSamples': dict(data=samples, sample_freq=slower, start=masked_part, stop=masked_part, invalid_channels=lambda a: st.lists(st.integers(0, a['data']['shape'][1] - 1), max_size=a['data']['shape'][1] - 1, unique=True)),
    'MicGeom': dict(pos_total=lambda a: like(a, 'pos_total'), invalid_channels=lambda a: st.lists(st.integers(0, _cols(a['pos_total']) - 1), min_size=len(a.get('invalid_channels', [])), max_size=len(a.get('invalid_channels', [])), unique=True)),
    'Environment': dict(c=choice(fl(200, 500, 1))),
    'UniformFlowEnvironment': dict(c=choice(fl(300, 400, 1)), ma=choice(fl(0, 0.6)), fdv=lit([1, 0, 0], [0, 1, 0], [0, 0, -1], [0.6, 0.8, 0])),
    'GeneralFlowEnvironment': dict(c=choice(fl(330, 350, 1)), N=one(20, 30, 50), Om=one(float(np.pi), 1.5)),
    'SlotJet': dict(v0=choice(fl(0, 60, 1)), origin=lit([0.0, 0.0, 0.5], [-1.0, 0.2, 0.7]), flow=lit([1.0, 0.0, 0.0], [1.0, 0.2, 0.0]), plane=lit([0.0, 1.0, 0.0], [0.0, 1.0, 0.3]), B=choice(fl(0.1, 0.5)), l=choice(fl(2, 8, 1))),
    'OpenJet': dict(v0=choice(fl(0, 60, 1)), origin=lit([0.0, 0.0, 0.5], [-1.0, 0.2, 0.7]), D=choice(fl(0.1, 0.6)), l=choice(fl(3, 8, 1))),
    'RotatingFlow': dict(v0=choice(fl(0, 20, 1)), rps=choice(fl(-10, 10, 1)), origin=lit([0.0, 0.0, 0.0], [0.1, -0.1, 0.0])),
    'Trajectory': dict(points=traj_points),
    'PointSource': {**SRC, **UP, **PAD},
    'PointSourceDipole': {**SRC, **UP, 'direction': DIREC},
    'SphericalHarmonicSource': {**SRC, **UP, 'direction': DIREC, 'alpha': lambda a: like(a, 'alpha'), 'lOrder+alpha': lambda a: st.integers(0, 2).map(lambda n: {'lOrder': n, 'alpha': {'arr': 'normal', 'shape': [(n + 1) ** 2], 'seed': n}})},
    'LineSource': {**SRC, **UP, **LINE},
    'PointSourceConvolve': dict(loc=TUP3, kernel=lambda a: like(a, 'kernel')),
    'MovingPointSource': {**SRC, **UP, **MOVE},
    'MovingPointSourceDipole': {**SRC, **UP, **MOVE, 'direction': DIREC, 'rvec': lit([0.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0])},
    'MovingLineSource': {**SRC, **UP, **MOVE, **LINE, 'rvec': lit([0.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0])},
    'UncorrelatedNoiseSource': dict(seed=lambda a: st.sampled_from([a['seed'], {'lit': list(range(7, 7 + a['mics']['a']['pos_total']['shape'][1] - len(a['mics']['a'].get('invalid_channels', [])))), 'dtype': 'uint32'}])),
    'Mixer': dict(sources=lambda a: other_sources(a, 0)),
    'SourceMixer': dict(sources=lambda a: other_sources(a, 1), weights=lambda a: zoo.seeds.map(lambda s: {'arr': 'normal', 'shape': [len(a['sources'])], 'seed': s})),
    # processing
    'MaskedTimeOut': dict(start=choice(st.integers(0, 3)), stop=masked_part, invalid_channels=lambda a: st.sampled_from([a['invalid_channels'], [], [0], [1], [0, 2]])),
    'ChannelMixer': dict(weights=lambda a: st.sampled_from([{'lit': []}, {'lit': [0.5]}, {'lit': [0.25]}]) if 'lit' in a['weights'] else like(a, 'weights')),
    'FiltOctave': dict(band=lambda a: st.sampled_from([a['band'] * 0.9, a['band'] * 0.999, a['band'] * 0.5]), fraction=one('Octave', 'Third octave'), order=choice(st.integers(1, 4))),
    'OctaveFilterBank': dict(lband=lambda a: st.integers(a['lband'] - 2, a['hband'] - 1), hband=lambda a: st.integers(a['lband'] + 1, a['hband']), fraction=one('Octave', 'Third octave')),
    'TimeExpAverage': dict(weight=one('F', 'S', 'I')),
    'FiltFreqWeight': dict(weight=one('A', 'C', 'Z')),
    'TimeConvolve': dict(kernel=lambda a: like(a, 'kernel')),
    'Average': dict(num_per_average=choice(st.integers(1, 6))),
    'Calib': dict(data=lambda a: like(a, 'data'), **{'data+invalid_channels': lambda a: st.integers(0, a['data']['shape'][0]).map(lambda i: {'data': {**a['data'], 'shape': [a['data']['shape'][0]]}, 'invalid_channels': []})}),
    'RFFT': dict(SPEC, scaling=one('none', 'amplitude', 'energy'), precision=one('complex128', 'complex64'), block_size=lambda a: st.sampled_from([b for b in (2, 4, 6, 8, 16) if b <= 2 * a['block_size']])),
    'IRFFT': dict(precision=one('float64', 'float32')),
    'AutoPowerSpectra': dict(scaling=one('power', 'psd'), precision=one('float64', 'float32'), single_sided=choice(st.booleans())),
    'CrossPowerSpectra': dict(scaling=one('power', 'psd'), precision=one('complex128', 'complex64'), single_sided=choice(st.booleans()), calc_mode=one('full', 'upper', 'lower')),
    # spectra
    'PowerSpectra': dict(SPEC, precision=one('complex128', 'complex64'), block_size=one(128, 256)),
    'PowerSpectraImport': dict(csm=lambda a: zoo.seeds.map(lambda s: {**a['csm'], 'seed': s}) | st.just({**a['csm'], 'scale': 2.0}), frequencies=lambda a: st.sampled_from([{'lit': [round(f * q, 6) for f in a['frequencies']['lit']]} for q in (1.1, 0.5, 1.001)])),
    # geometry
    'RectGrid': dict(x_min=lambda a: st.just(round(a['x_max'] - a['increment'], 6)), x_max=lambda a: st.just(round(a['x_max'] + a['increment'], 6)), y_min=lambda a: st.just(round(a['y_max'] - 2 * a['increment'], 6)), y_max=lambda a: st.just(round(a['y_max'] + a['increment'], 6)),
                     z=choice(fl(0.8, 3, 2)), increment=lambda a: st.sampled_from([a['increment'], a['increment'] / 2]), **{'x_min+x_max': lambda a: fl(-0.5, 0.5, 2).map(lambda d: {'x_min': round(a['x_min'] + d, 6), 'x_max': round(a['x_max'] + d, 6)})}),
    'RectGrid3D': dict(x_max=lambda a: st.just(round(a['x_max'] + 0.5, 6)), y_max=lambda a: st.just(round(a['y_max'] + 0.5, 6)), z_max=lambda a: st.just(round(a['z_max'] + 0.5, 6)), x_min=lambda a: st.just(round(a['x_max'] - 0.5, 6)), y_min=lambda a: st.just(round(a['y_max'] - 0.5, 6)),
                       z_min=lambda a: st.just(round(a['z_max'] - 0.25, 6)), increment=one(0.5, {'lit': [0.5, 0.25, 0.5]}, {'lit': [0.25, 0.5, 0.5]}, {'lit': [0.5, 0.5, 0.25]})),
    'LineGrid': dict(loc=TUP3, direction=DIREC, length=choice(fl(0.2, 2, 2)), num_points=choice(st.integers(2, 6))),
    'ImportGrid': dict(pos=lambda a: like(a, 'pos')),
    'MergeGrid': dict(grids=lambda a: lists_of(a['grids'], st.one_of(zoo.rect_grid(maxn=2), zoo.line_grid(), zoo.import_grid(maxn=4)))),
    'SteeringVector': dict(steer_type=one('true level', 'true location', 'classic', 'inverse'), ref=one(1.0, 0.3, 0.0, {'lit': [0.1, -0.2, 0.3]}, {'lit': [0.1, -0.2, 0.31]}, 0.30001)),
    'PointSpreadFunction': dict(precision=one('float64', 'float32'), calcmode=one('full', 'block', 'single'), freq=choice(fl(100, 4000, 1)), grid_indices=lambda a: st.sampled_from([{'lit': [], 'dtype': 'int64'}, {'lit': [0], 'dtype': 'int64'}, {'lit': [0, 1], 'dtype': 'int64'}])),
    # beamforming
    'BeamformerBase': FD,
    'BeamformerFunctional': dict({k: v for k, v in FD.items() if k not in ('r_diag', 'r_diag_norm')}, gamma=choice(fl(1, 5))),
    'BeamformerCapon': dict(precision=FD['precision']),
    'BeamformerEig': dict(FD, n=choice(st.integers(-3, 3))),
    'BeamformerMusic': dict(precision=FD['precision'], n=choice(st.integers(-2, 3))),
    'BeamformerOrth': dict(FD, eva_list=lit([-1], [-1, -2], [0])),
    'BeamformerDamas': SOLVER,
    'BeamformerDamasPlus': dict({k: v for k, v in SOLVER.items() if k != 'damp'}, method=one('NNLS', 'LP', 'LassoLars', 'OMPCV'), alpha=one(0.0, 0.1), unit_mult=one(1e9, 1.0)),
    'BeamformerClean': SOLVER,
    'BeamformerCleansc': dict({k: v for k, v in FD.items() if k != 'r_diag_norm'}, n_iter=choice(st.integers(0, 12)), damp=one(0.6, 1.0, 0.3), stopn=one(1, 3, 50)),
    'BeamformerCMF': dict({k: v for k, v in FD.items() if k != 'r_diag_norm'}, **INV, method=one('NNLS', 'LassoLars', 'LassoLarsBIC', 'fmin_l_bfgs_b')),
    'BeamformerSODIX': dict(precision=FD['precision'], **INV),
    'BeamformerGIB': dict(precision=FD['precision'], **INV, method=one('Suzuki', 'InverseIRLS'), eps_perc=one(0.05, 0.3), pnorm=one(1.0, 1.2), beta=one(0.9, 0.7), n=choice(st.integers(1, 3)), m=one(1, 2)),
    'BeamformerGridlessOrth': dict(r_diag=FD['r_diag'], eva_list=lit([-1], [-1, -2]), bounds=one([{'tup': [-1.0, 1.0]}, {'tup': [-1.0, 1.0]}, {'tup': [0.5, 1.5]}], [{'tup': [-0.5, 1.0]}, {'tup': [-1.0, 0.5]}, {'tup': [0.5, 1.5]}]), shgo=one({'n': 16, 'iters': 1}, {'n': 32, 'iters': 1})),
    'BeamformerTime': TB, 'BeamformerTimeSq': dict(TB, r_diag=choice(st.booleans())), 'BeamformerTimeTraj': dict(TB, **TRAJ), 'BeamformerTimeSqTraj': dict(TB, **TRAJ, r_diag=choice(st.booleans())),
    'BeamformerCleant': dict(TB, **CL), 'BeamformerCleantSq': dict(TB, **CL, r_diag=choice(st.booleans())), 'BeamformerCleantTraj': dict(TB, **CL, **TRAJ), 'BeamformerCleantSqTraj': dict(TB, **CL, **TRAJ, r_diag=choice(st.booleans())),
    'IntegratorSectorTime': dict(clip=one(-350.0, -3.0, -20.0), sectors=one([{'lit': [0.0, 0.0, 0.3]}], [{'lit': [-1.0, -1.0, 0.0, 1.0]}], [{'lit': [0.0, 0.0, 0.3]}, {'lit': [-1.0, -1.0, 1.0, 1.0]}], [{'lit': [0.0, 0.0, 0.3]}, {'lit': [-1.0, -1.0, 0.0, 0.0]}])),
    # rotation
    'Trigger': dict(threshold=one(0.5, 0.7, -0.5), max_variation_of_duration=one(1.0, 0.02, 3.0), hunk_length=one(0.01, 0.1), trigger_type=one('dirac', 'rect'), multiple_peaks_in_hunk=one('extremum', 'first')),
    'AngleTracker': dict(trigger_per_revo=one(1, 2, 4), rot_direction=one(1, -1), interp_points=one(2, 3, 4), start_angle=choice(fl(-3, 3, 1))),
    'SpatialInterpolator': INTERP,
    'SpatialInterpolatorConstantRotation': dict(INTERP, rotational_speed=choice(fl(-5, 5, 1))),
    'SpatialInterpolatorRotation': INTERP,
}
for _k, _v in (('FiltFiltOctave', 'FiltOctave'), ('OwnSteer', 'SteeringVector')):
    ALTS[_k] = ALTS[_v]


def nodes(spec, path=()):
    """Every object description in the tree with its path."""
    out = [(list(path), spec)]
    for k, v in spec['a'].items():
        if zoo.is_spec(v):
            out += nodes(v, (*path, k))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if zoo.is_spec(x):
                    out += nodes(x, (*path, k, i))
    return out


def choices(spec, only=None):
    """Everything that can be varied: (path of the object, trait or traits)."""
    out = []
    for p, s in nodes(spec):
        for t in ALTS.get(s['k'], {}):
            if only is None or only(p, s, t):
                out.append((p, t))
    return out


def at(spec, path):
    for p in path:
        spec = spec[p] if isinstance(p, int) else spec['a'][p]
    return spec


@st.composite
def variation(draw, spec, only=None):
    """One parameter (or a group that belongs together) of one object: {'p': path, 'v': {trait: value}}."""
    cs = choices(spec, only)
    p, t = cs[draw(st.integers(0, len(cs) - 1))]
    s = at(spec, p)
    v = draw(ALTS[s['k']][t](s['a']))
    return {'p': p, 'v': v if '+' in t else {t: v}}


def changed(spec, var):
    """The spec after the assignment; the traits set last come last."""
    spec = copy.deepcopy(spec)
    a = at(spec, var['p'])['a']
    for k, v in var['v'].items():
        a.pop(k, None)
        a[k] = v
    return spec


def assign(obj, var):
    """The same assignment on the living objects."""
    for p in var['p']:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    for k, v in var['v'].items():
        setattr(obj, k, zoo.conv(v))


def inplace(obj, var):
    """The same assignment by changing lists and dictionaries in place; False if there is nothing like that."""
    for p in var['p']:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    done = False
    for k, v in var['v'].items():
        old, new = getattr(obj, k, None), zoo.conv(v)
        if isinstance(old, list) and isinstance(new, list):
            keep = min(len(old), len(new))
            for i in range(keep):
                if not _equal(old[i], new[i]):
                    old[i] = new[i]
            if len(old) > len(new):
                del old[keep:]
            elif len(new) == len(old) + 1:
                old.append(new[-1])
            elif len(new) > len(old):
                old.extend(new[keep:])
            done = True
        elif isinstance(old, dict) and isinstance(new, dict):
            for x in [x for x in old if x not in new]:
                del old[x]
            for x in new:
                if x not in old or not _equal(old[x], new[x]):
                    old[x] = new[x]
            done = True
        else:
            setattr(obj, k, new)
    return done


def _equal(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return np.array_equal(x, y)
    if hasattr(x, 'digest'):
        return hasattr(y, 'digest') and x.digest == y.digest
    return bool(x == y)


def replace(obj, spec, path):
    """Put a newly built object at the place the path names."""
    for p in path[:-1]:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    new = zoo.build(at(spec, path))
    if isinstance(path[-1], int):
        obj[path[-1]] = new
    else:
        setattr(obj, path[-1], new)


def get(obj, path):
    for p in path:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    return obj


# ------------------------------------------------------------------------------------ readers
GP = np.array([[0.1, -0.3, 0.4], [0.2, 0.1, -0.2], [0.9, 1.1, 1.3]])
MP = np.array([[0.0, 0.3], [0.1, -0.2], [0.0, 0.05]])
NUM = 16


def _plain(v):
    """Copy of a value that can be compared, or None."""
    if isinstance(v, (np.ndarray, np.generic)):
        return np.array(v) if np.asarray(v).dtype != object else None
    if isinstance(v, (bool, int, float, complex, str, bytes, type(None))):
        return v
    if isinstance(v, slice):
        return repr(v)
    if isinstance(v, (list, tuple)):
        q = [_plain(x) for x in v]
        return None if any(x is None for x in q) else tuple(q)
    if isinstance(v, dict):
        return repr(sorted((str(k), repr(x)) for k, x in v.items()))
    if type(v).__module__.startswith(('tables', 'h5py', 'acoular.h5')):
        return np.array(v[:])
    return None


_names = {}


def derived(cls):
    """Names of the computed public attributes of a class."""
    if cls not in _names:
        alias = {x for c in cls.__mro__ for x in getattr(c, '_deprecated_aliases', ())}
        out = []
        for n, t in cls.class_traits().items():
            if n.startswith('_') or t.type not in ('property', 'delegate') or n in alias or n in OLD:
                continue
            if n in ('result', 'psf', 'rpm', 'angle', 'csm', 'eva', 'eve', 'h5f', 'from_file', 'gpos_file', 'time_data', 'beamformer', 'mics_virtual') :
                continue
            out.append(n)
        _names[cls] = sorted(out)
    return _names[cls]


OLD = {'numchannels', 'numsamples', 'numfreqs', 'numsamples_total', 'numchannels_total', 'naverage', 'collectsamples', 'numbands', 'gpos', 'na', 'max_iter', 'mpos', 'n', 'ind_high', 'ind_low', 'writeflag', 'numsamples_write', 'numpoints', 'rpm'} - {'mpos', 'ind_high', 'ind_low'}


def _lines(o):
    f = o.freq_data.fftfreq()
    return np.array(f)[o.freq_data.indices]


def _beamf(o):
    return {'result': np.array(o.result[:]), 'synthetic': np.array([o.synthetic(f, 0) for f in _lines(o)])}


def results(o):
    """Functions computing what the object is there for: {name: callable}."""
    if isinstance(o, ac.SamplesGenerator) and not (isinstance(o, ac.TimeInOut) and o.source is None):
        r = {'result': lambda: zoo.full(o, NUM)}
        if isinstance(o, ac.AngleTracker):
            r = {'angle': lambda: np.array(o.angle), 'rpm': lambda: np.array(o.rpm), 'average_rpm': lambda: np.array(o.average_rpm)}
        if isinstance(o, ac.Trigger):
            r = {'trigger_data': lambda: np.concatenate([np.asarray(x, float).ravel() for x in o.trigger_data])}
        return r
    if isinstance(o, ac.SpectraGenerator):
        return {'result': lambda: zoo.full(o, 4)}
    if isinstance(o, ac.PowerSpectra):
        return {'csm': lambda: np.array(o.csm[:]), 'eva': lambda: np.array(o.eva[:]), 'eve': lambda: np.array(o.eve[:]), 'fftfreq': lambda: np.array(o.fftfreq())}
    if isinstance(o, ac.SignalGenerator):
        return {'signal': lambda: np.array(o.signal()), 'usignal': lambda: np.array(o.usignal(3))}
    if isinstance(o, ac.BeamformerGridlessOrth):
        return {'result': lambda: np.array(o.result[:])}
    if isinstance(o, ac.BeamformerSODIX):
        return {'result': lambda: np.array(o.result[:])}
    if isinstance(o, ac.BeamformerBase):
        return {'result': lambda: np.array(o.result[:]), 'synthetic': lambda: np.array([o.synthetic(f, 0) for f in _lines(o)])}
    if isinstance(o, ac.PointSpreadFunction):
        return {'psf': lambda: np.array(o.psf[:])}
    if isinstance(o, ac.SteeringVector):
        return {'transfer': lambda: o.transfer(1234.5), 'transfer-1': lambda: o.transfer(500.0, 0), 'steer_vector': lambda: o.steer_vector(1234.5), 'r0': lambda: np.array(o.r0), 'rm': lambda: np.array(o.rm)}
    if isinstance(o, ac.Environment):
        return {'_r': lambda: np.array(o._r(GP, MP)), '_r0': lambda: np.array(o._r(GP))}
    if isinstance(o, ac.environments.FlowField):
        return {'v': lambda: np.concatenate([np.array(x, float).ravel() for p in GP.T for x in o.v(p)])}
    if isinstance(o, ac.Trajectory):
        def loc(der):
            return lambda: np.array(o.location(np.linspace(*o.interval, 7), der=der))
        return {'location': loc(0), 'velocity': loc(1), 'traj': lambda: np.array(list(o.traj(o.interval[0], o.interval[1], (o.interval[1] - o.interval[0]) / 5)))}
    if isinstance(o, ac.tools.MetricEvaluator):
        return {'specific': lambda: o.get_specific_level_error(), 'overall': lambda: o.get_overall_level_error(), 'inverse': lambda: o.get_inverse_level_error()}
    return {}


def reads(o):
    r = results(o)
    for n in derived(type(o)):
        if isinstance(o, ac.BeamformerAdaptiveGrid):
            # the positions are a result
            r['.' + n] = lambda n=n: (np.array(o.result[:]), _plain(getattr(o, n)))[1]
        else:
            r['.' + n] = lambda n=n: _plain(getattr(o, n))
    return r


def attempt(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return 'ok', f()
        except Exception as e:  # noqa: BLE001
            return 'exc', e


def same(ctx, a, b, what, rtol=1e-9, atol=1e-12):
    if isinstance(b, np.ndarray) and b.dtype.kind in 'fc':
        a = np.asarray(a)
        ctx.check(a.shape == b.shape, lambda: f'{what}: shape {a.shape} instead of {b.shape}')
        ctx.close(a, b, what, rtol=rtol, atol=atol)
    elif isinstance(b, np.ndarray):
        ctx.check(np.array_equal(a, b), lambda: f'{what}: {a!r} instead of {b!r}')
    elif isinstance(b, tuple):
        ctx.check(len(a) == len(b), lambda: f'{what}: {a!r} instead of {b!r}')
        for x, y in zip(a, b):
            same(ctx, x, y, what, rtol, atol)
    elif isinstance(b, float):
        ctx.check(a == b or abs(a - b) <= rtol * abs(b) or (a != a and b != b), lambda: f'{what}: {a!r} instead of {b!r}')
    else:
        ctx.equal(a, b, what)


# -------------------------------------------------------------------------------------- trees
@st.composite
def time_tree(draw):
    return draw(zoo.pipeline(depth=(0, 3), nlo=20, nhi=60))['spec']


@st.composite
def masked_tree(draw):
    n, c = draw(st.integers(10, 50)), draw(st.integers(1, 4))
    a = {'data': draw(zoo.arrays([n, c])), 'sample_freq': 100.0}
    k = draw(st.sampled_from(['TimeSamples', 'MaskedTimeSamples', 'MaskedTimeSamples']))
    if k == 'MaskedTimeSamples':
        a |= {'start': draw(st.integers(0, 3)), 'invalid_channels': draw(st.lists(st.integers(0, c - 1), max_size=c - 1, unique=True))}
    if draw(st.booleans()):
        a['calib'] = S('Calib', data={'arr': 'pos', 'shape': [c], 'seed': draw(zoo.seeds)})
    s = S(k, **a)
    return S('TimePower', source=s) if draw(st.booleans()) else s


@st.composite
def fft_tree(draw):
    n, c = draw(st.integers(40, 90)), draw(st.integers(1, 3))
    src, n, c, fs = draw(zoo.sample_source(only=draw(st.sampled_from(['array', 'array', 'noise'])), n=n, c=c))
    s = S('RFFT', source=src, block_size=draw(st.sampled_from([8, 16])), window='Hanning', overlap='50%')
    k = draw(st.sampled_from(['RFFT', 'IRFFT', 'AutoPowerSpectra', 'CrossPowerSpectra', 'Average']))
    if k == 'RFFT':
        return s
    if k == 'IRFFT':
        return S(k, source=S('RFFT', source=src, block_size=draw(st.sampled_from([8, 16]))))
    if k == 'Average':
        return S(k, source=S(draw(st.sampled_from(['AutoPowerSpectra', 'CrossPowerSpectra'])), source=s), num_per_average=draw(st.integers(1, 4)))
    return S(k, source=s)


@st.composite
def power(draw, c=None, fs=None):
    """A PowerSpectra object with few lines selected."""
    c = draw(st.integers(1, 3)) if c is None else c
    src = S('TimeSamples', data=draw(zoo.arrays([draw(st.integers(270, 400)), c], kinds=('normal',))), sample_freq=draw(st.sampled_from([1000.0, 51200.0])) if fs is None else fs)
    if draw(st.integers(0, 3)) == 0:
        src = S('FiltFreqWeight', source=src, weight='A')
    lo = draw(st.integers(1, 20))
    return S('PowerSpectra', source=src, block_size=128, window=draw(st.sampled_from(['Hanning', 'Rectangular'])), cached=False, ind_low=lo, ind_high=lo + draw(st.integers(1, 2)))


@st.composite
def imported(draw, c=None):
    c = draw(st.integers(1, 4)) if c is None else c
    nf = draw(st.integers(1, 3))
    f = sorted(draw(st.lists(st.integers(100, 4000), min_size=nf, max_size=nf, unique=True)))
    return S('PowerSpectraImport', csm={'arr': 'psd', 'shape': [nf, c, c], 'rank': draw(st.integers(1, c + 1)), 'noise': 0.1, 'seed': draw(zoo.seeds)}, frequencies={'lit': [float(x) for x in f]})


SPECTRA_EXTRA = dict(ind_low=choice(st.integers(0, 30)), ind_high=choice(st.integers(31, 66)), freq_range=one({'tup': [10.0, 100.0]}, {'tup': [100.0, 450.0]}, {'tup': [3.0, 200.0]}))


@st.composite
def spectra_tree(draw):
    return draw(st.one_of(power(), imported()))


FREQ = {
    'BeamformerBase': {}, 'BeamformerFunctional': {'gamma': 2.0, 'r_diag': False}, 'BeamformerCapon': {}, 'BeamformerEig': {'n': -1}, 'BeamformerMusic': {'n': 1}, 'BeamformerDamas': {'n_iter': 5}, 'BeamformerDamasPlus': {'method': 'NNLS', 'n_iter': 5},
    'BeamformerOrth': {'eva_list': {'lit': [-1], 'dtype': 'int64'}}, 'BeamformerCleansc': {'n_iter': 10}, 'BeamformerClean': {'n_iter': 5}, 'BeamformerCMF': {'method': 'NNLS', 'n_iter': 5}, 'BeamformerSODIX': {'n_iter': 2}, 'BeamformerGIB': {'n_iter': 2, 'n': 1},
    'BeamformerGridlessOrth': {'eva_list': {'lit': [-1], 'dtype': 'int64'}, 'bounds': [{'tup': [-1.0, 1.0]}, {'tup': [-1.0, 1.0]}, {'tup': [0.5, 1.5]}], 'shgo': {'n': 16, 'iters': 1}},
}
CHEAP = ['BeamformerBase', 'BeamformerFunctional', 'BeamformerCapon', 'BeamformerEig', 'BeamformerMusic', 'BeamformerCleansc', 'BeamformerOrth']


@st.composite
def small_steer(draw, e=None, c=None, g=None):
    s = draw(zoo.steer(nm=c, lo=2, hi=4, g=g if g is not None else st.one_of(zoo.rect_grid(maxn=3), zoo.rect_grid3d(maxn=2), zoo.line_grid(), zoo.import_grid(maxn=6)), e=e if e is not None else zoo.env()))
    return s


@st.composite
def beamf_tree(draw, kinds=None):
    k = draw(st.sampled_from(kinds or sorted(k for k in FREQ if 'Gridless' not in k)))
    s = draw(small_steer())
    c = zoo.nmics(s)
    if k not in ('BeamformerGIB', 'BeamformerSODIX', 'BeamformerGridlessOrth') and draw(st.integers(0, 3)) == 0:
        s = bf.as_own(s)
    fd = draw(st.one_of(imported(c=c), power(c=c)))
    return S(k, freq_data=fd, steer=s, cached=False, **copy.deepcopy(FREQ[k]))


SOLVERS = sorted(k for k in FREQ if k not in CHEAP and 'Gridless' not in k)


@st.composite
def solver_tree(draw):
    """Inverse methods in the middle of their iterations, where every parameter counts."""
    k = draw(st.sampled_from([*SOLVERS, 'BeamformerDamasPlus', 'BeamformerCMF', 'BeamformerCleansc', 'BeamformerOrth', 'BeamformerFunctional']))
    c = draw(st.integers(3, 5))
    s = draw(small_steer(c=c, e=zoo.plain_env(), g=st.integers(0, 99).map(lambda i: S('ImportGrid', pos={'arr': 'uniform', 'shape': [3, 5 + i % 4], 'seed': i, 'scale': 0.6}))))
    c = zoo.nmics(s)
    a = copy.deepcopy(FREQ[k])
    for t in sorted(ALTS[k]):
        if t not in ('calcmode', 'precision', 'show') and draw(st.integers(0, 2)) == 0:
            a[t] = draw(ALTS[k][t](a))
    if 'n_iter' in a:
        a['n_iter'] = draw(st.integers(1, 4))
    if k == 'BeamformerDamasPlus':
        a['method'] = draw(st.sampled_from(['LassoLars', 'LassoLars', 'NNLS', 'LP', 'OMPCV']))
    if k == 'BeamformerCMF':
        a['method'] = draw(st.sampled_from(['LassoLars', 'LassoLarsBIC', 'NNLS', 'fmin_l_bfgs_b']))
    return S(k, freq_data=draw(imported(c=c)), steer=s, cached=False, **a)


@st.composite
def tbeam_tree(draw):
    k = draw(st.sampled_from(['BeamformerTime', 'BeamformerTimeSq', 'BeamformerTimeTraj', 'BeamformerTimeSqTraj', 'BeamformerCleant', 'BeamformerCleantSq', 'BeamformerCleantTraj', 'BeamformerCleantSqTraj', 'IntegratorSectorTime']))
    n, fs = draw(st.integers(40, 70)), draw(st.sampled_from([1000.0, 2000.0]))
    if k == 'IntegratorSectorTime':
        g = draw(zoo.rect_grid(maxn=3))
        s = draw(small_steer(e=zoo.plain_env(), g=st.just(g)))
        src = S('BeamformerTimeSq', source=draw(zoo.timesamples(n, zoo.nmics(s), fs)), steer=s)
        return S(k, source=src, grid=copy.deepcopy(g), sectors=[{'lit': [0.0, 0.0, 0.3]}])
    s = draw(small_steer(e=zoo.plain_env()))
    a = {'source': draw(zoo.timesamples(n, zoo.nmics(s), fs)), 'steer': s}
    if 'Traj' in k:
        a['trajectory'] = draw(zoo.traj(dur=(2 * n + 2 * NUM) / fs * 1.5, forward=True))
    if 'Clean' in k:
        a |= {'n_iter': 2, 'damp': 0.6}
    return S(k, **a)


@st.composite
def psf_tree(draw):
    s = draw(small_steer())
    return S('PointSpreadFunction', steer=s, freq=draw(fl(100, 4000, 1)), calcmode=draw(st.sampled_from(['full', 'block', 'single'])))


@st.composite
def steer_tree(draw):
    return draw(small_steer(e=zoo.env(general=draw(st.integers(0, 4)) == 0)))


@st.composite
def geom_tree(draw):
    k = draw(st.sampled_from(['grid', 'grid', 'grid', 'merge', 'merge', 'mics', 'mics', 'env', 'traj', 'traj', 'traj', 'general' if draw(st.integers(0, 2)) == 0 else 'grid']))
    if k == 'grid':
        return draw(zoo.any_grid())
    if k == 'merge':
        return S('MergeGrid', grids=[draw(st.one_of(zoo.rect_grid(maxn=3), zoo.line_grid(), zoo.import_grid())) for _ in range(draw(st.integers(1, 3)))])
    if k == 'mics':
        return draw(zoo.mics())
    if k == 'env':
        return draw(zoo.env())
    if k == 'general':
        return draw(zoo.general_env())
    return draw(zoo.traj())


@st.composite
def signal_tree(draw):
    n = draw(st.integers(4, 50))
    return draw(zoo.signal(n, draw(st.sampled_from(zoo.FS))))


@st.composite
def rotation_tree(draw):
    k = draw(st.sampled_from(['AngleTracker', 'SpatialInterpolator', 'SpatialInterpolatorConstantRotation', 'SpatialInterpolatorRotation']))
    fs = 100.0
    n = draw(st.integers(100, 160))
    x = np.zeros((n, 1))
    x[draw(st.integers(2, 9)) :: draw(st.sampled_from([17, 20, 23]))] = 1.0
    tr = S('Trigger', source=S('TimeSamples', data={'lit': x.tolist()}, sample_freq=fs), threshold=0.5, max_variation_of_duration=1.0, hunk_length=0.01)
    at_ = S('AngleTracker', source=draw(zoo.timesamples(n, 1, fs)), trigger=tr, interp_points=draw(st.sampled_from([2, 3, 4])))
    if k == 'AngleTracker':
        return at_
    m = draw(st.integers(4, 7))
    phi = np.arange(m) * 2 * np.pi / m + 0.1
    # two rings, where the interpolation is one of two dimensions
    dim = draw(st.sampled_from(['ring', '1D', '2D', '2D']))
    r = np.where(np.arange(m) % 2, 0.55, 1.0) if dim == '2D' else np.ones(m)
    mics = S('MicGeom', pos_total={'lit': np.round([r * np.cos(phi), r * np.sin(phi), 0 * phi], 6).tolist()})
    a = {'source': draw(zoo.timesamples(n, m, fs)), 'mics': mics, 'array_dimension': dim, 'method': draw(st.sampled_from(['linear', 'spline', 'IDW', 'rbf-cubic']))}
    if 'Constant' in k:
        a['rotational_speed'] = draw(fl(-3, 3, 1))
    elif 'Rotation' in k:
        a['angle_source'] = at_
    return S(k, **a)


TREES = {'time': time_tree, 'masked': masked_tree, 'fft': fft_tree, 'spectra': spectra_tree, 'beamformer': beamf_tree, 'gridless': lambda: beamf_tree(['BeamformerGridlessOrth']), 'timebeam': tbeam_tree, 'psf': psf_tree, 'steer': steer_tree, 'geometry': geom_tree, 'signal': signal_tree, 'rotation': rotation_tree}
