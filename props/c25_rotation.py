"""C25 rotation tracking and spatial interpolation reproduce known rotations and fields."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline
from scipy.spatial import QhullError

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import fl

P = 'C25'
PI2 = 2 * np.pi


# ---------------------------------------------------------------- trigger signals

@st.composite
def train(draw):
    """Pulse positions and shapes, in samples."""
    p = draw(st.integers(40, 400))
    k = draw(st.integers(2, min(60, max(2, 6000 // p))))
    jitter = draw(st.sampled_from([0, 0, 0.005, 0.1]))
    return {'period': p, 'k': k, 'jitter': jitter, 't0': draw(st.integers(1, p)), 'tail': draw(st.integers(0, p)), 'seed': draw(zoo.seeds), 'fs': draw(st.sampled_from([100.0, 1000.0, 51200.0])),
            'amp': draw(st.sampled_from([1.0, -1.0, 30.0, -0.01])), 'noise': draw(st.sampled_from([0.0, 0.1])), 'width': draw(st.integers(1, 3)), 'thr': draw(st.sampled_from(['given', 'given', 'guess'])),
            'level': draw(fl(0.3, 0.6, 2)), 'type': draw(st.sampled_from(['dirac', 'rect'])), 'peaks': draw(st.sampled_from(['extremum', 'first'])), 'start_high': draw(st.booleans()),
            'duty': draw(fl(0.15, 0.35, 2)), 'cut': draw(st.sampled_from([0, 0, 7])), 'early': draw(st.sampled_from([0, 0, 0, 0.3, 0.6])), 'offset': draw(st.sampled_from([0, 0.4])), 'variation': draw(st.sampled_from([0.02, 0.5]))}


def pulses(d):
    """Signal (n, 1), the expected trigger positions, and the threshold."""
    rng = np.random.default_rng(d['seed'])
    p = d['period']
    pos = d['t0'] + np.arange(d['k']) * p
    if d['jitter']:
        pos = pos + np.round(rng.uniform(-1, 1, d['k']) * d['jitter'] * p).astype(int)
    if d['early'] and d['k'] > 2:  # one of the intervals is shorter than all others
        i = rng.integers(1, d['k'])
        pos[i:] -= int(d['early'] * p)
    pos = np.maximum(pos, 1)
    high = d['start_high'] and pos[0] > 8  # the signal starts within a pulse of 5 samples
    n = int(pos[-1]) + 4 + d['tail']
    a = d['amp']
    x = rng.uniform(-1, 1, n) * d['noise'] * abs(a)
    thr = d['level'] * a
    if d['type'] == 'dirac' and d['thr'] == 'guess':
        x += d['offset'] * a
    want = []
    if d['type'] == 'dirac':
        for q in pos:
            w = rng.permutation(np.linspace(0.7, 1.1, d['width'])) if d['width'] > 1 else np.array([1.0])
            if d['thr'] == 'guess':
                w = w / w.max()
            x[q : q + d['width']] = a * (w + (d['offset'] if d['thr'] == 'guess' else 0))
            above = q + np.flatnonzero(w > (0.85 if d['thr'] == 'guess' else d['level']))
            want.append(int(q + np.argmax(w)) if d['peaks'] == 'extremum' else int(above[0]))
        if d['thr'] == 'guess' and d['width'] > 1:
            want = None  # which of the samples exceed a guessed threshold depends on it
    else:
        x *= 0.3
        w = max(2, int(d['duty'] * p))
        for q in pos:
            x[q : q + w] += abs(a)
        if high:
            x[:5] += abs(a)
        if a > 0:
            want = [int(q) for q in pos]
        else:
            ends = ([5] if high else []) + [int(q) + w for q in pos]
            want = [e for e in ends if e < n]
            if high:
                want = None  # an early fall may or may not be in the hunk of the next one
    return x[:, None], want, thr, pos


def warned(rec, text):
    return any(text in str(w.message) for w in rec)


@subcheck(P, 'trigger', train(), quick=1200, shards=2, rule='a signal of more than one internal block (2048 samples), or pulses of several samples')
def trigger(d, ctx):
    if d['type'] == 'rect' and d['thr'] == 'guess':
        ctx.discard()
    x, want, thr, pos = pulses(d)
    if want is None:
        want = [int(q) for q in pos]
        loose = True
    else:
        loose = False
    cut = d['cut'] if d['cut'] < min(want) - 1 and not (d['type'] == 'rect' and d['start_high']) else 0
    src = ac.MaskedTimeSamples(data=x, sample_freq=d['fs'], start=cut) if cut else ac.TimeSamples(data=x, sample_freq=d['fs'])
    t = ac.Trigger(source=src, trigger_type=d['type'], multiple_peaks_in_hunk=d['peaks'], max_variation_of_duration=d['variation'])
    if d['thr'] == 'given':
        t.threshold = thr
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        if len(want) < 2:
            try:
                t.trigger_data
            except Exception:
                return
            ctx.fail('a single trigger is accepted')
        loc, mx, mn = t.trigger_data
    if loose:
        loc = np.asarray(loc)
        if d['type'] == 'rect':
            return
        ctx.equal(len(loc), len(want), 'number of triggers')
        ctx.check(np.all(np.abs(loc + cut - want - 1) <= d['width']), f'trigger positions {loc} for pulses at {want}')
    else:
        ctx.equal([int(v) + cut for v in loc], want, 'trigger positions')
    dist = np.diff(loc)
    ctx.equal((int(mx), int(mn)), (int(dist.max()), int(dist.min())), 'largest and smallest distance')
    var = np.abs(dist - dist.mean()).max() / dist.mean()
    ctx.equal(warned(rec, 'No threshold was passed'), d['thr'] == 'guess', 'warning about a guessed threshold')
    if abs(var - d['variation']) > 1e-6:
        ctx.equal(warned(rec, 'vary too much'), bool(var > d['variation']), f'warning about a variation of {var}')
    ctx.label(d['type'] + ' ' + d['peaks'])
    ctx.interesting(len(x) > 2048 or d['width'] > 1)


def delta_train(loc, n, fs, c=1):
    x = np.zeros((n, 1))
    x[loc] = 1.0
    return ac.Trigger(source=ac.TimeSamples(data=x, sample_freq=fs), threshold=0.5, max_variation_of_duration=1.0, hunk_length=0.01)


def tracker(loc, n, fs, **a):
    trig = delta_train(loc, n, fs)
    return ac.AngleTracker(source=ac.TimeSamples(data=np.zeros((n, 2)), sample_freq=fs), trigger=trig, **a)


def wrap(a):
    return (a + np.pi) % PI2 - np.pi


tpars = {'tpr': st.integers(1, 5), 'dir': st.sampled_from([1, -1]), 'ip': st.integers(4, 6), 'start': fl(-4, 8), 'fs': st.sampled_from([100.0, 48000.0]), 'extra': st.integers(1, 12), 't0': fl(0, 1), 'tail': fl(0, 0.99)}


@subcheck(P, 'uniform', st.fixed_dictionaries({**tpars, 'period': st.one_of(st.integers(8, 60).map(float), fl(20, 60, 2))}), quick=150, shards=2, rule='several triggers per revolution or a period that is no whole number of samples')
def uniform(d, ctx):
    k = d['ip'] + d['extra']
    p = d['period']
    loc = np.floor(d['t0'] * p + np.arange(k) * p + 0.5).astype(int)
    n = int(loc[-1] + 1 + d['tail'] * p)
    o = tracker(loc, n, d['fs'], trigger_per_revo=d['tpr'], rot_direction=d['dir'], interp_points=d['ip'], start_angle=d['start'])
    t = np.arange(n)
    whole = float(p).is_integer()
    if whole:
        exact = (t - loc[0]) / p
        tol = 1e-7 * 200
    else:
        exact = (t - d['t0'] * p) / p
        tol = 20.0 * 0.5 / p * PI2 / d['tpr'] * (1 + 6 * (d['ip'] > 4))
    ang = np.asarray(o.angle)
    ctx.equal(ang.shape, (n,), 'shape of the angle')
    ctx.check(bool((ang >= 0).all() and (ang <= PI2).all()), 'angles are in [0, 2 pi]')
    want = d['start'] + d['dir'] * PI2 * exact / d['tpr']
    err = np.abs(wrap(ang - want))
    if tol < np.pi:
        ctx.check(err.max() <= tol, f'angle of a uniform rotation is wrong by {err.max()} at sample {err.argmax()} (tolerance {tol})')
    rpm = np.asarray(o.rpm)
    true = 60 * d['fs'] / p / d['tpr']
    if whole:
        ctx.close(rpm, np.full(n, true), 'rpm of a uniform rotation', rtol=1e-6)
    inner = (loc[-1] - loc[0]) / (k - 1)
    ctx.close(o.average_rpm, 60 * d['fs'] / inner / d['tpr'], 'average rpm', rtol=1e-12)
    ctx.interesting(d['tpr'] > 1 or not whole)


@subcheck(P, 'varying', st.fixed_dictionaries({**tpars, 'dist': st.lists(st.integers(8, 40), min_size=4, max_size=14)}), quick=150, shards=2, rule='distances between triggers differ by more than 30 %')
def varying(d, ctx):
    dist = [min(max(v, 12), 24) for v in d['dist']]
    if len(dist) < d['ip']:
        ctx.discard()
    loc = np.concatenate(([int(d['t0'] * 10)], int(d['t0'] * 10) + np.cumsum(dist)))
    n = int(loc[-1] + 1 + d['tail'] * 5)
    o = tracker(loc, n, d['fs'], trigger_per_revo=d['tpr'], rot_direction=d['dir'], interp_points=d['ip'], start_angle=d['start'])
    k = np.arange(len(loc))
    want = d['start'] + d['dir'] * PI2 * k / d['tpr']
    err = np.abs(wrap(np.asarray(o.angle)[loc] - want))
    ctx.check(err.max() < 1e-6, f'angle at trigger {err.argmax()} is wrong by {err.max()}')
    ctx.check(bool(np.isfinite(o.angle).all() and np.isfinite(o.rpm).all()), 'angle and speed are finite')
    # reading order does not matter, and the signal itself is passed on
    p = tracker(loc, n, d['fs'], trigger_per_revo=d['tpr'], rot_direction=d['dir'], interp_points=d['ip'], start_angle=d['start'])
    rpm = np.array(p.rpm)
    ctx.same(np.array(p.angle), np.array(o.angle), 'angle read after rpm')
    ctx.same(np.array(o.rpm), rpm, 'rpm read after angle')
    # a change of the trigger is followed
    o.trigger_per_revo = d['tpr'] + 1
    want = d['start'] + d['dir'] * PI2 * k / (d['tpr'] + 1)
    ctx.check(np.abs(wrap(np.asarray(o.angle)[loc] - want)).max() < 1e-6, 'angle after changing trigger_per_revo')
    ctx.interesting(max(dist) > 1.3 * min(dist))


# ---------------------------------------------------------------- spatial interpolation

def rotation(seed):
    q, r = np.linalg.qr(np.random.default_rng(seed).normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


@st.composite
def arrays(draw, dims=('1D', 'ring', '2D', '3D')):
    dim = draw(st.sampled_from(dims))
    return {'dim': dim, 'N': draw(st.integers(5, 12)), 'rings': 1 if dim in ('1D', 'ring') else draw(st.integers(2, 4)), 'off': draw(fl(0.1, 0.9, 2)), 'stagger': draw(st.sampled_from([0.0, 0.0, 0.05])),
            'Q': draw(st.one_of(st.none(), zoo.seeds)), 'levels': draw(st.integers(2, 3)) if dim == '3D' else 1, 'radius': draw(st.sampled_from([0.3, 1.0, 2.5])), 'seed': draw(zoo.seeds), 'zero': draw(st.booleans())}


METHODS = {'1D': ['linear', 'spline', 'rbf-cubic', 'sinc'], 'ring': ['linear', 'spline', 'rbf-cubic', 'sinc'], '2D': ['linear', 'spline', 'rbf-cubic', 'rbf-multiquadric', 'IDW'], '3D': ['linear', 'rbf-cubic', 'rbf-multiquadric']}


def geometry(d):
    """Cylindrical coordinates (3, M) in the modified system, and rows (j, ring) for each microphone."""
    n = d['N']
    out, idx = [], []
    for h in range(d['levels']):
        for r in range(d['rings']):
            for j in range(n):
                o = min(max(d['off'] + d['stagger'] * (r + h), 0.06), 0.94)
                out.append((-np.pi + (j + o) * PI2 / n, d['radius'] * (1 + 0.6 * r), 0.4 * h * d['radius']))
                idx.append(h * d['rings'] + r)
    return np.array(out).T, np.array(idx)


def cart(cyl, q):
    p = np.array([cyl[1] * np.cos(cyl[0]), cyl[1] * np.sin(cyl[0]), cyl[2]])
    return p if q is None else rotation(q).T @ p


def interpolator(d, cls, cyl, virt, data, fs, **a):
    q = {} if d['Q'] is None else {'Q': rotation(d['Q'])}
    kw = dict(source=ac.TimeSamples(data=data, sample_freq=fs), mics=ac.MicGeom(pos_total=cart(cyl, d['Q'])), array_dimension=d['dim'], **q, **a)
    if virt is not None:
        kw['mics_virtual'] = ac.MicGeom(pos_total=cart(virt, d['Q']))
    return cls(**kw)


def run(o, num, d, ctx):
    try:
        return zoo.full(o, num)
    except QhullError:
        # the triangulation itself fails for some regular arrangements in three dimensions
        if d['dim'] != '3D':
            raise
        ctx.label('no triangulation')
        ctx.discard()


def shuffled(d, cyl):
    return np.random.default_rng(d['seed'] + 1).permutation(cyl.shape[1])


def neighbour(d, m, steps):
    """Microphone reached from microphone m by rotating the given number of microphone distances."""
    n = d['N']
    return m - m % n + (m % n + steps) % n


@subcheck(P, 'coincident', st.fixed_dictionaries({'a': arrays(), 'm': st.integers(0, 4), 'k': st.integers(-3, 3), 'n': st.integers(1, 9), 'num': st.integers(1, 6), 'fs': st.sampled_from([64.0, 1000.0]), 'virt': st.sampled_from(['same', 'permuted', 'some'])}),
          quick=300, shards=3, rule='a rotation by whole microphone distances per sample')
def coincident(c, ctx):
    d = c['a']
    ms = METHODS[d['dim']]
    method = ms[c['m'] % len(ms)]
    cyl, _ = geometry(d)
    M = cyl.shape[1]
    order = shuffled(d, cyl)
    cyl0 = cyl[:, order]  # the microphones are not sorted
    rng = np.random.default_rng(d['seed'])
    data = rng.normal(size=(c['n'], M))
    pick = np.arange(M) if c['virt'] == 'same' else rng.permutation(M)[: M if c['virt'] == 'permuted' else max(2, M // 2)]
    virt = None if c['virt'] == 'same' else cyl0[:, pick]
    zero = d['zero'] and d['dim'] == '2D' and method in ('linear', 'spline', 'rbf-cubic', 'IDW')
    o = interpolator(d, ac.SpatialInterpolatorConstantRotation, cyl0, virt, data, c['fs'], method=method, rotational_speed=c['k'] * c['fs'] / d['N'], interp_at_zero=zero)
    ctx.equal(o.num_channels, len(pick), 'number of channels')
    got = run(o, c['num'], d, ctx)
    inv = np.argsort(order)
    want = np.empty((c['n'], len(pick)))
    for t in range(c['n']):
        for v, mm in enumerate(pick):
            want[t, v] = data[t, inv[neighbour(d, order[mm], c['k'] * t)]]
    ctx.shape(got, want.shape, 'interpolated signal')
    ctx.close(got, want, f'values at positions of microphones, {d["dim"]} {method}', rtol=1e-6, scale=max(1.0, np.abs(data).max()))
    ctx.label(d['dim'] + ' ' + method)
    ctx.interesting(c['k'] != 0 and c['n'] > 1)


@subcheck(P, 'ring', st.fixed_dictionaries({'a': arrays(('1D', 'ring')), 'method': st.sampled_from(['linear', 'spline']), 'speed': fl(-40, 40, 2), 'n': st.integers(1, 12), 'num': st.integers(1, 6), 'nv': st.integers(1, 7), 'fs': st.sampled_from([64.0, 1000.0])}),
          quick=400, shards=2, rule='virtual microphones between the microphones of a rotating array')
def ring(c, ctx):
    d = c['a']
    rng = np.random.default_rng(d['seed'])
    n = d['N']
    phi = np.sort(rng.uniform(-np.pi, np.pi, n)) if d['zero'] else geometry(d)[0][0]
    if np.diff(np.append(phi, phi[0] + PI2)).min() < 0.02:
        ctx.discard()
    cyl = np.array([phi, np.full(n, d['radius']), np.zeros(n)])
    vphi = rng.uniform(-np.pi, np.pi, c['nv'])
    virt = np.array([vphi, np.full(c['nv'], d['radius']), np.zeros(c['nv'])])
    order = rng.permutation(n)
    data = rng.normal(size=(c['n'], n))
    o = interpolator(d, ac.SpatialInterpolatorConstantRotation, cyl[:, order], virt, data[:, order], c['fs'], method=c['method'], rotational_speed=c['speed'])
    got = zoo.full(o, c['num'])
    where = vphi[None, :] + PI2 * c['speed'] / c['fs'] * np.arange(c['n'])[:, None]
    want = np.empty((c['n'], c['nv']))
    for t in range(c['n']):
        if c['method'] == 'linear':
            xx = np.concatenate((phi - PI2, phi, phi + PI2))
            want[t] = np.interp(wrap(where[t]), xx, np.tile(data[t], 3))
        else:
            s = make_interp_spline(np.append(phi, phi[0] + PI2), np.append(data[t], data[t, 0]), k=3, bc_type='periodic')
            want[t] = s((where[t] - phi[0]) % PI2 + phi[0])
    ctx.close(got, want, f'interpolation on a ring, {c["method"]}', rtol=1e-6, scale=max(1.0, np.abs(want).max()))
    ctx.interesting(c['speed'] != 0)


@subcheck(P, 'affine', st.fixed_dictionaries({'a': arrays(('2D', '3D')), 'method': st.sampled_from(['linear', 'spline']), 'speed': fl(-40, 40, 2), 'n': st.integers(1, 6), 'num': st.integers(1, 6), 'nv': st.integers(1, 6), 'fs': st.sampled_from([64.0, 1000.0])}),
          quick=250, shards=2, rule='virtual microphones between the microphones of a rotating array')
def affine(c, ctx):
    d = c['a']
    method = 'linear' if d['dim'] == '3D' else c['method']
    cyl, _ = geometry(d)
    rng = np.random.default_rng(d['seed'])
    lo, hi = cyl.min(1), cyl.max(1)
    virt = lo[:, None] + (hi - lo)[:, None] * rng.uniform(0.15, 0.85, (3, c['nv']))
    virt[0] = rng.uniform(-np.pi, np.pi, c['nv'])
    if d['dim'] == '2D':
        virt[2] = cyl[2, 0]
    co = rng.normal(size=(c['n'], 3))
    field = lambda p: co[:, :1] + co[:, 1:2] * p[1] + co[:, 2:] * p[2]
    data = field(cyl)
    o = interpolator(d, ac.SpatialInterpolatorConstantRotation, cyl, virt, data, c['fs'], method=method, rotational_speed=c['speed'])
    ctx.close(run(o, c['num'], d, ctx), field(virt), f'field that varies linearly with radius and height, {d["dim"]} {method}', rtol=1e-4 if method == 'spline' else 1e-7, scale=max(1.0, np.abs(data).max()))
    ctx.label(d['dim'] + ' ' + method)
    ctx.interesting(c['speed'] != 0)


@subcheck(P, 'idw', st.fixed_dictionaries({'a': arrays(('2D',)), 'speed': fl(-40, 40, 2), 'n': st.integers(1, 6), 'nv': st.integers(1, 6), 'k': st.integers(1, 6), 'p': fl(0.5, 4), 'change': st.booleans()}),
          quick=250, shards=2, rule='more than one neighbour')
def idw(c, ctx):
    d = c['a']
    cyl, _ = geometry(d)
    rng = np.random.default_rng(d['seed'])
    lo, hi = cyl.min(1), cyl.max(1)
    virt = lo[:, None] + (hi - lo)[:, None] * rng.uniform(0.1, 0.9, (3, c['nv']))
    virt[2] = 0
    data = rng.normal(size=(c['n'], cyl.shape[1]))
    fs = 1000.0
    first = {'num_IDW': 3, 'p_weight': 2} if c['change'] else {'num_IDW': c['k'], 'p_weight': c['p']}
    o = interpolator(d, ac.SpatialInterpolatorConstantRotation, cyl, virt, data, fs, method='IDW', rotational_speed=c['speed'], **first)
    if c['change']:
        zoo.full(o, 3)
        o.num_IDW, o.p_weight = c['k'], c['p']
    got = zoo.full(o, 3)
    xy = lambda q: np.array([q[1] * np.cos(q[0]), q[1] * np.sin(q[0])])
    pm = xy(cyl)
    for t in range(c['n']):
        pv = virt.copy()
        pv[0] += PI2 * c['speed'] / fs * t
        pv = xy(pv)
        for v in range(c['nv']):
            dist = np.sqrt(((pm - pv[:, v : v + 1]) ** 2).sum(0))
            near = np.argsort(dist)[: c['k'] + 1]
            if dist[near[0]] < 5e-3 or (len(near) > c['k'] and dist[near[-1]] - dist[near[-2]] < 1e-6):
                continue  # on a microphone, or the choice of neighbours is ambiguous
            near = near[: c['k']]
            w = dist[near] ** -c['p']
            ctx.close(got[t, v], (w * data[t, near]).sum() / w.sum(), 'inverse distance weighting', rtol=1e-7, scale=np.abs(data).max())
    ctx.interesting(c['k'] > 1)


@subcheck(P, 'tracked', st.fixed_dictionaries({'a': arrays(), 'm': st.integers(0, 4), 'num': st.integers(1, 9), 'dir': st.sampled_from([1, -1]), 'tpr': st.integers(1, 3), 'laps': st.integers(6, 8), 'start': st.integers(0, 4), 'virt': st.booleans()}),
          quick=60, shards=2, rule='every case: the rotation is given by a trigger signal')
def tracked(c, ctx):
    """A trigger every N/tpr... samples: the array rotates by one microphone distance per sample."""
    d = dict(c['a'])
    d['N'] = n = (8, 12, 6)[c['laps'] % 3]
    tpr = c['tpr'] if n % c['tpr'] == 0 and n // c['tpr'] > 3 else 1
    p = n // tpr
    k = c['laps'] * tpr
    loc = np.arange(k) * p + 1
    ns = int(loc[-1]) + 2
    ms = METHODS[d['dim']]
    method = ms[c['m'] % len(ms)]
    if d['dim'] != 'ring' and method.startswith('rbf'):
        method = 'linear'
    cyl, _ = geometry(d)
    data = np.random.default_rng(d['seed']).normal(size=(ns, cyl.shape[1]))
    tr = tracker(loc, ns, 100.0, trigger_per_revo=tpr, rot_direction=c['dir'], start_angle=c['start'] * PI2 / n)
    o = interpolator(d, ac.SpatialInterpolatorRotation, cyl, cyl if c['virt'] else None, data, 100.0, method=method, angle_source=tr)
    got = run(o, c['num'], d, ctx)
    want = np.array([[data[t, neighbour(d, m, c['start'] + c['dir'] * (t - 1))] for m in range(cyl.shape[1])] for t in range(ns)])
    ctx.close(got, want, f'virtual microphones follow the tracked rotation, {d["dim"]} {method}', rtol=1e-5, scale=np.abs(data).max())
    ctx.label(d['dim'] + ' ' + method)
    ctx.interesting(True)


@subcheck(P, 'changes', st.fixed_dictionaries({'a': arrays(('ring', '2D')), 'ops': st.lists(st.sampled_from(['mics', 'virtual', 'method', 'speed', 'Q', 'read']), min_size=1, max_size=5), 'seeds': st.lists(zoo.seeds, min_size=5, max_size=5)}),
          quick=80, shards=1, rule='a parameter changes after a first result')
def changes(c, ctx):
    """After changes of any parameter the result is that of a fresh object."""
    d = c['a']
    cyl, _ = geometry(d)
    data = np.random.default_rng(d['seed']).normal(size=(4, cyl.shape[1]))
    cls = ac.SpatialInterpolatorConstantRotation
    state = {'source': ac.TimeSamples(data=data, sample_freq=100.0), 'mics': ac.MicGeom(pos_total=cart(cyl, None)), 'array_dimension': d['dim'], 'method': 'linear', 'rotational_speed': 3.0}
    o = cls(**state)
    digests = {o.digest}
    zoo.full(o, 2)
    for op, seed in zip(c['ops'], c['seeds']):
        rng = np.random.default_rng(seed)
        if op == 'mics':
            e = cyl.copy()
            e[0] = (e[0] + rng.uniform(-0.1, 0.1) / d['N'] + np.pi) % PI2 - np.pi
            state['mics'] = ac.MicGeom(pos_total=cart(e, None))
            o.mics = state['mics']
        elif op == 'virtual':
            e = cyl.copy()
            e[0] += rng.uniform(0, 6)
            state['mics_virtual'] = ac.MicGeom(pos_total=cart(e, None))
            o.mics_virtual = state['mics_virtual']
        elif op == 'method':
            state['method'] = ['linear', 'spline', 'rbf-cubic'][int(rng.integers(3))]
            o.method = state['method']
        elif op == 'speed':
            state['rotational_speed'] = float(rng.uniform(-20, 20))
            o.rotational_speed = state['rotational_speed']
        elif op == 'Q':
            a = rng.uniform(0, 6)
            state['Q'] = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.0]])
            o.Q = state['Q']
        else:
            continue
        fresh = cls(**state)
        ctx.equal(o.digest, fresh.digest, f'digest after {op}')
        ctx.close(zoo.full(o, 3), zoo.full(fresh, 3), f'result after {op}', rtol=1e-9, scale=1.0)
    ctx.interesting(any(op != 'read' for op in c['ops']))


@subcheck(P, 'passing', st.fixed_dictionaries({'n': st.integers(1, 30), 'num': st.integers(1, 12), 'c': st.integers(1, 4), 'seed': zoo.seeds}), quick=60, rule='several blocks')
def passing(c, ctx):
    """Classes without own output pass their source on, and say so."""
    data = np.random.default_rng(c['seed']).normal(size=(c['n'], c['c']))
    src = ac.TimeSamples(data=data, sample_freq=100.0)
    mics = ac.MicGeom(pos_total=np.random.default_rng(c['seed']).normal(size=(3, c['c'])))
    for o in (ac.SpatialInterpolator(source=src, mics=mics), ac.Trigger(source=ac.TimeSamples(data=data[:, :1], sample_freq=100.0))):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            got = zoo.full(o, c['num'])
        ctx.same(got, data if isinstance(o, ac.SpatialInterpolator) else data[:, :1], 'samples passed')
        ctx.check(warned(rec, 'not implemented'), 'a warning is issued')
    ctx.interesting(c['n'] > c['num'])
