"""C24 time-domain beamformers equal direct delay-and-sum."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import bf, zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C24'


def own_weights(steer):
    """Microphones at (rounded) equal distances from the centre share the area of a ring."""
    env, m = steer.env, np.array(steer.mics.pos)
    r = np.sqrt((m**2).sum(0)) if type(env) is ac.Environment else np.asarray(env._r(np.zeros((3, 1)), m)).reshape(-1)
    r = np.round(r / r.max(), 1)
    rings = sorted(set(r))
    borders = [0.0] + [(a + b) / 2 for a, b in zip(rings[:-1], rings[1:])]
    borders.append(1.5 * rings[-1] - 0.5 * borders[-1])
    w = {}
    for k, q in enumerate(rings):
        w[q] = np.sqrt((borders[k + 1] ** 2 - borders[k] ** 2) / (r == q).sum())
    mean = np.mean(list(w.values()))
    return np.array([w[q] / mean for q in r])


def weights(obj):
    return own_weights(obj.steer) if obj.weights == 'power' else np.ones(obj.steer.mics.num_mics)


def gains(kind, rm, r0):
    """Weights of the four formulations, for distances rm (..., M) and r0 (...)."""
    n = rm.shape[-1]
    r0 = np.broadcast_to(r0, rm.shape[:-1])[..., None]
    if kind == 'classic':
        return np.full(rm.shape, 1.0 / n)
    if kind == 'inverse':
        return rm / r0 / n
    e = (1 / rm**2).sum(-1, keepdims=True)
    if kind == 'true level':
        return 1 / (r0 * rm * e)
    return 1 / (rm * np.sqrt(n * e))


def interpolate(x, delay):
    """Linear interpolation of the channels of x (N, M) at positions delay (..., M) in samples."""
    i = np.floor(delay).astype(int)
    w = delay - i
    m = np.arange(x.shape[1])
    return x[i, m] * (1 - w) + x[i + 1, m] * w


def delay_and_sum(x, delay, amp):
    """Signals and powers of single microphones, for delay, amp of shape (n, G, M); sample n looks from n on."""
    n = np.arange(delay.shape[0])[:, None, None]
    y = interpolate(x, delay + n) * amp
    return y.sum(-1), (y**2).sum(-1)


def finish(kind, r_diag, y, auto):
    if 'Sq' not in kind:
        return y
    return np.maximum(y**2 - auto, 0) if r_diag else y**2


def scene(draw, n, fs, lo=2, hi=4, general=True, g=None):
    s = draw(zoo.steer(lo=lo, hi=hi, g=zoo.any_grid() if g is None else g, e=zoo.env() if general else zoo.plain_env()))
    a = {'source': draw(zoo.timesamples(n, zoo.nmics(s), fs)), 'steer': s}
    if draw(st.booleans()) and zoo.nmics(s) > 2:
        a['weights'] = 'power'
    return a


FS = st.sampled_from([500.0, 1500.0, 3000.0])


# ------------------------------------------------------------------------------- resting grids


@st.composite
def stationary(draw):
    n = draw(st.integers(20, 120))
    a = scene(draw, n, draw(FS))
    kind = draw(st.sampled_from(['BeamformerTime', 'BeamformerTimeSq', 'BeamformerTimeSq']))
    if 'Sq' in kind:
        a['r_diag'] = draw(st.booleans())
    return {'spec': S(kind, **a), 'n': n, 'num': draw(st.integers(1, n + 5) | st.just(2048))}


def distinct(ctx, obj):
    if obj.weights == 'power' and not bf.rings(obj.steer):
        ctx.discard()


def fixed(obj):
    r0, rm = bf.geometry(obj.steer)
    delay = rm / obj.steer.env.c * obj.source.sample_freq
    return r0, rm, delay, gains(obj.steer.steer_type, rm, r0)


@subcheck(P, 'stationary', stationary(), quick=350, rule='several grid points and more than ten output samples')
def stationary_(d, ctx):
    obj = zoo.build(d['spec'])
    distinct(ctx, obj)
    x = np.array(obj.source.data) * weights(obj)
    r0, rm, delay, amp = fixed(obj)
    length = max(0, d['n'] - int(delay.max()) - 2)
    got = zoo.cat(zoo.collect(obj, d['num']), obj.steer.grid.size)
    ctx.check(abs(got.shape[0] - length) <= (abs(delay.max() - np.round(delay.max())) < 1e-6), f'{got.shape[0]} samples, expected {length}')
    length = min(length, got.shape[0])
    got = got[:length]
    y, auto = delay_and_sum(x, np.broadcast_to(delay, (length, *delay.shape)), amp)
    want = finish(d['spec']['k'], getattr(obj, 'r_diag', False), y, auto)
    size = np.abs(x).max() * np.abs(amp).sum(-1).max()
    ctx.close(got, want, 'output', rtol=1e-9, atol=1e-9 * (size**2 if 'Sq' in d['spec']['k'] else size) + 1e-300)
    ctx.label(d['spec']['k'], obj.steer.steer_type, f'weights {obj.weights}')
    ctx.interesting(obj.steer.grid.size > 1 and length > 10)


# ------------------------------------------------------------------------------- moving grids


@st.composite
def moving(draw, kinds=('BeamformerTimeTraj', 'BeamformerTimeSqTraj', 'BeamformerTimeSqTraj')):
    n = draw(st.integers(30, 100))
    fs = draw(FS)
    num = draw(st.integers(1, 60))
    a = scene(draw, n, fs)
    kind = draw(st.sampled_from(kinds))
    if 'Sq' in kind:
        a['r_diag'] = draw(st.booleans())
    rot = draw(st.booleans())
    a['trajectory'] = draw(zoo.traj(dur=(2 * n + num) / fs, forward=rot))
    if rot:
        a['rvec'] = {'lit': draw(st.sampled_from([[0, 0, 1.0], [0, 0, -1.0], [0, 1.0, 0.0], [0.0, 0.3, 2.0]]))}
    a['conv_amp'] = draw(st.booleans())
    a['precision'] = draw(st.sampled_from([64, 64, 32]))
    return {'spec': S(kind, **a), 'n': n, 'num': num}


def path(obj, n):
    """Positions of the moving grid (n, 3, G) and its velocity (n, 3)."""
    t = np.arange(n) / obj.source.sample_freq
    loc, vel = (np.stack([np.array(obj.trajectory.location(ti, der)).reshape(3) for ti in t]) for der in (0, 1))
    g = np.array(obj.steer.grid.pos, float)
    if (np.array(obj.rvec) == 0).all():
        return g + loc[:, :, None], vel
    out = []
    for p, v in zip(loc, vel):
        ex = v / np.linalg.norm(v)
        ey = np.cross(obj.rvec, ex)
        ey /= np.linalg.norm(ey)
        ez = np.cross(ex, ey)
        out.append(ex[:, None] * g[0] + ey[:, None] * g[1] + ez[:, None] * g[2] + p[:, None])
    return np.array(out), vel


def dist(env, a, b):
    """(G, M) distances"""
    if type(env) is ac.Environment:
        return np.sqrt(((a[:, :, None] - b[:, None, :]) ** 2).sum(0))
    return np.asarray(env._r(a, b)).reshape(a.shape[1], b.shape[1])


def flight(obj, n):
    """Distances (n, G, M), (n, G), radial velocities and delays."""
    pos, vel = path(obj, n)
    env, m, ref = obj.steer.env, np.array(obj.steer.mics.pos), obj.steer.ref
    rm = np.stack([dist(env, p, m) for p in pos])
    if np.isscalar(ref) and ref > 0:
        r0 = np.full(rm.shape[:2], float(ref))
    else:
        o = np.zeros((3, 1)) if np.isscalar(ref) else np.asarray(ref, float)[:, None]
        r0 = np.stack([dist(env, p, o)[:, 0] for p in pos])
    to_mic = m[None, :, None, :] - pos[:, :, :, None]
    ma = (vel[:, :, None, None] * to_mic).sum(1) / rm / env.c
    return rm, r0, ma, rm / env.c * obj.source.sample_freq


def amplitudes(obj, rm, r0, ma):
    kind = obj.steer.steer_type
    if not obj.conv_amp:
        return [gains(kind, rm, r0)]
    # the first is the physical one; the library has the other sign, a known finding
    return [gains(kind, rm * (1 - s * ma) ** 2, r0) for s in (1, -1)]


def available(delay, n):
    need = np.floor(delay).max((1, 2)) + 1 + np.arange(len(delay))
    ok = need < n
    return int(ok.argmin()) if not ok.all() else len(ok)


@subcheck(P, 'moving', moving(), quick=350, rule='several grid points, a changing delay and more than five output samples')
def moving_(d, ctx):
    obj = zoo.build(d['spec'])
    distinct(ctx, obj)
    x = np.array(obj.source.data) * weights(obj)
    rm, r0, ma, delay = flight(obj, d['n'] + 2)
    if rm.min() < 0.05 or np.abs(ma).max() > 0.8:
        ctx.discard()  # microphones inside the moving grid, or a grid (nearly) as fast as sound
    got = zoo.cat(zoo.collect(obj, d['num']), obj.steer.grid.size)
    length = available(delay, d['n'])
    slack = 1 if obj.precision == 32 or np.abs(delay - np.round(delay)).min() < 1e-6 else 0
    ctx.check(abs(got.shape[0] - length) <= slack, f'{got.shape[0]} samples, expected {length}')
    length = min(length, got.shape[0])
    got = got[:length]
    kind = d['spec']['k']
    bad = []
    for amp in amplitudes(obj, rm, r0, ma):
        y, auto = delay_and_sum(x, delay[:length], amp[:length])
        want = finish(kind, getattr(obj, 'r_diag', False), y, auto)
        size = np.abs(x).max() * np.abs(amp).sum(-1).max()
        tol = (1e-9 if obj.precision == 64 else 2e-4) * (size**2 if 'Sq' in kind else size) + 1e-300
        err = np.abs(got - want)
        if length == 0 or err.max() <= tol:
            break
        i = np.unravel_index(err.argmax(), err.shape)
        bad.append(f'sample {i[0]}, point {i[1]}: {got[i]}, expected {want[i]}, tolerance {tol}')
    else:
        ctx.fail(str(bad))
    ctx.label(kind, f'precision {obj.precision}', 'rotation' if np.any(obj.rvec) else 'translation', 'amplified' if obj.conv_amp else 'plain', f'weights {obj.weights}')
    ctx.interesting(obj.steer.grid.size > 1 and length > 5 and np.ptp(delay[:length], 0).max() > 1e-3)


@st.composite
def resting(draw):
    n = draw(st.integers(20, 80))
    fs = draw(FS)
    a = scene(draw, n, fs, g=zoo.import_grid())
    kind = draw(st.sampled_from(['Time', 'TimeSq', 'Cleant', 'CleantSq']))
    if 'Sq' in kind:
        a['r_diag'] = draw(st.booleans())
    if 'Clean' in kind:
        a |= {'n_iter': draw(st.integers(1, 5)), 'damp': draw(st.sampled_from([0.6, 1.0]))}
    return {'kind': kind, 'a': a, 'n': n, 'num': draw(st.integers(2, 60)), 'at': [draw(fl(-2, 2)), draw(fl(-2, 2)), draw(fl(0, 3))], 'precision': draw(st.sampled_from([64, 64, 32])), 'conv_amp': draw(st.booleans())}


@subcheck(P, 'resting', resting(), quick=250, rule='several grid points, several output samples')
def resting_(d, ctx):
    """A resting trajectory only shifts the grid."""
    n, at = d['n'], np.array(d['at'])
    tr = ac.Trajectory(points={-1.0: tuple(at), 1.0 + (2 * n + 2 * d['num']) / d['a']['source']['a']['sample_freq']: tuple(at)})
    kw = {k: v for k, v in d['a'].items() if k not in ('steer', 'source')}
    steer, src = zoo.build(d['a']['steer']), zoo.build(d['a']['source'])
    traj = getattr(ac, f'Beamformer{d["kind"]}Traj')(source=src, steer=steer, trajectory=tr, precision=d['precision'], conv_amp=d['conv_amp'], **kw)
    moved = zoo.build(d['a']['steer'])
    moved.grid.pos = np.array(moved.grid.pos) + at[:, None]
    still = getattr(ac, f'Beamformer{d["kind"]}')(source=zoo.build(d['a']['source']), steer=moved, **kw)
    distinct(ctx, still)
    if moved.rm.min() < 0.05:
        ctx.discard()
    # blocks have different borders at the end, where CLEAN would differ
    rm = moved.rm / moved.env.c * src.sample_freq
    a, b = (zoo.cat(zoo.collect(o, d['num']), moved.grid.size) for o in (traj, still))
    ctx.check(0 <= a.shape[0] - b.shape[0] <= 1 + (d['precision'] == 32), f'{a.shape[0]} and {b.shape[0]} samples')
    m = min(len(a), len(b))
    if 'Clean' in d['kind']:
        if d['precision'] == 32:
            return
        m -= m % d['num']
        from math import ceil
        # points of equal power may be taken in another order
        if (np.abs(np.sort(np.abs(b[:m]).sum(0))[1:] - np.sort(np.abs(b[:m]).sum(0))[:-1]) < 1e-9).any() and moved.grid.size > 1 and not np.allclose(a[:m], b[:m]):
            ctx.label('undecided')
            return
    size = np.abs(b).max() if b.size else 1
    x = np.abs(np.array(src.data)).max() * gains(moved.steer_type, moved.rm, moved.r0).sum(-1).max() * (3 if kw.get('weights') else 1)
    size = x**2 if 'Sq' in d['kind'] else x
    ctx.close(a[:m], b[:m], d['kind'], rtol=0, atol=(1e-8 if d['precision'] == 64 else 3e-4) * size + 1e-300)
    ctx.label(d['kind'], f'precision {d["precision"]}')
    ctx.interesting(moved.grid.size > 1 and m > 3)


# ------------------------------------------------------------------------------- sources


@st.composite
def recovered(draw):
    k = draw(st.sampled_from(['still', 'moving']))
    fs = 48000.0
    s = draw(zoo.steer(lo=2, hi=5, g=zoo.import_grid(maxn=4), e=zoo.plain_env(), types=['true level', 'inverse']))
    return {'k': k, 'steer': s, 'fs': fs, 'n': draw(st.integers(600, 1200)), 'cycles': draw(st.integers(1, 5)), 'phase': draw(fl(0, 6)), 'point': draw(st.integers(0, s['a']['grid']['a']['pos']['lit'] and len(s['a']['grid']['a']['pos']['lit'][0]) - 1)),
            'v': [draw(fl(-60, 60, 1)), draw(fl(-60, 60, 1)), draw(fl(-20, 20, 1))], 'sq': draw(st.booleans())}


@subcheck(P, 'recovered', recovered(), quick=120, rule='more than 100 output samples')
def recovered_(d, ctx):
    """Focused on a point source, the output is the sound pressure it causes at the reference distance."""
    steer = zoo.build(d['steer'])
    fs, n, g = d['fs'], d['n'], d['point']
    freq = d['cycles'] * fs / n  # periodic, so that upsampling is exact
    sig = ac.SineGenerator(freq=freq, phase=d['phase'], sample_freq=fs, num_samples=n, amplitude=1.0)
    p = np.array(steer.grid.pos)[:, g]
    kw = {}
    if d['k'] == 'moving':
        v = np.array(d['v'])
        t1 = 2 * n / fs + 1.0
        tr = ac.Trajectory(points={-1.0: tuple(-v), t1: tuple(v * t1)})
        src = ac.MovingPointSource(signal=sig, mics=steer.mics, env=steer.env, trajectory=ac.Trajectory(points={-1.0: tuple(p - v), t1: tuple(p + v * t1)}), up=16)
        kw = {'trajectory': tr}
    else:
        src = ac.PointSource(signal=sig, mics=steer.mics, env=steer.env, loc=tuple(p), up=16)
    name = 'Beamformer' + ('TimeSq' if d['sq'] else 'Time') + ('Traj' if d['k'] == 'moving' else '')
    if d['sq']:
        kw['r_diag'] = False
    b = getattr(ac, name)(source=src, steer=steer, **kw)
    got = zoo.cat(zoo.collect(b, 256), steer.grid.size)[:, g]
    t = np.arange(len(got)) / fs
    want = np.sin(2 * np.pi * freq * t + d['phase'])
    if d['k'] == 'moving':
        pos = p[:, None] + np.array(d['v'])[:, None] * t
        ref = steer.ref
        o = np.zeros(3) if np.isscalar(ref) else np.array(ref)
        r0 = ref if np.isscalar(ref) and ref > 0 else np.sqrt(((pos - o[:, None]) ** 2).sum(0))
    else:
        r0 = steer.r0[g]
    want = want / r0
    if d['sq']:
        want = want**2
    size = np.abs(want).max() if want.size else 1
    # the first sample reaches back to before the signal
    ctx.close(got[2:], want[2:], 'output at the source', rtol=0, atol=0.03 * size)
    ctx.interesting(len(got) > 100)


# ------------------------------------------------------------------------------- CLEAN


def clean(x, delay, amp, r0, rm, n_iter, damp, r_diag, tol):
    """One block of CLEAN in the time domain; delay, amp, rm: (n, G, M), r0: (n, G).

    Returns the output, its powers, the history of the remaining power, the points and whether all decisions were clear."""
    x = x.copy()
    n, ng, nm = delay.shape
    y, auto = delay_and_sum(x, delay, amp)
    out, pow_out = np.zeros((n, ng)), np.zeros((n, ng))
    points, clear = [], True
    power = lambda y, a: np.maximum((y**2 - a if r_diag else y**2).sum(0), 0)
    history = [power(y, auto)]
    scale = history[0].sum() + 1e-300
    while len(points) < n_iter:
        p = history[-1]
        g = int(p.argmax())
        clear &= (p > p[g] - tol * scale).sum() == 1
        pos = delay[:, g] + np.arange(n)[:, None]
        trial = x.copy()
        for m in range(nm):
            k = np.arange(int(np.floor(pos[:, m].min())), int(np.floor(pos[:, m].max())) + 2)
            trial[k, m] -= damp * np.interp(k, pos[:, m], y[:, g] * r0[:, g] / rm[:, g, m])
        y2, auto2 = delay_and_sum(trial, delay, amp)
        p2 = power(y2, auto2)
        clear &= abs(p2.sum() - p.sum()) > tol * scale or (p2.sum() == p.sum() == 0)
        x = trial
        if not p2.sum() < p.sum():
            break
        out[:, g] += damp * y[:, g]
        pow_out[:, g] = auto[:, g]
        points.append(g)
        history.append(p2)
        y, auto = y2, auto2
    return out, pow_out, history, points, clear


@st.composite
def cleant(draw):
    traj = draw(st.booleans())
    n = draw(st.integers(25, 80))
    fs = draw(FS)
    num = draw(st.integers(2, 60))
    s = draw(zoo.steer(lo=2, hi=4, g=zoo.import_grid(maxn=6), e=zoo.plain_env()))
    a = {'source': draw(zoo.timesamples(n, zoo.nmics(s), fs)), 'steer': s, 'n_iter': draw(st.sampled_from([0, 1, 1, 2, 5, 20])), 'damp': draw(st.sampled_from([0.6, 1.0, 0.2, 0.6]))}
    if draw(st.booleans()):
        # something to be found: a source at one of the points
        pos = s['a']['grid']['a']['pos']['lit']
        k = draw(st.integers(0, len(pos[0]) - 1))
        n = draw(st.integers(80, 140))
        fs = 1500.0
        a['source'] = S('PointSource', signal=draw(zoo.signal(n, fs, kinds=('WNoise', 'PNoise', 'Sine'))), mics=s['a']['mics'], env=s['a']['env'], loc={'tup': [pos[i][k] for i in range(3)]}, up=4)
    sq = draw(st.booleans())
    if sq:
        a['r_diag'] = draw(st.booleans())
    if traj:
        rot = draw(st.booleans())
        a['trajectory'] = draw(zoo.traj(dur=(2 * n + 2 * num) / fs, forward=rot))
        if rot:
            a['rvec'] = {'lit': [0, 0, 1.0]}
        a['conv_amp'] = draw(st.sampled_from([False, False, True]))
        a['precision'] = draw(st.sampled_from([64, 64, 32]))
    return {'spec': S('BeamformerCleant' + 'Sq' * sq + 'Traj' * traj, **a), 'n': n, 'num': num}


@subcheck(P, 'clean', cleant(), quick=300, rule='several grid points, more than one step in some block')
def clean_(d, ctx):
    """Every block is decomposed by subtracting what the strongest point contributes to the microphones; the remaining power never increases."""
    obj = zoo.build(d['spec'])
    kind = d['spec']['k']
    x = zoo.full(obj.source)
    steer = obj.steer
    if 'Traj' in kind:
        rm, r0, ma, delay = flight(obj, d['n'] + 2)
        if rm.min() < 0.05 or np.abs(ma).max() > 0.8:
            ctx.discard()
        if obj.precision == 32:
            rm, delay = rm.astype(np.float32).astype(float), (rm.astype(np.float32) / np.float32(steer.env.c / obj.source.sample_freq)).astype(float)
        signs = [1, -1] if obj.conv_amp else [0]
    else:
        r0, rm, delay, _ = fixed(obj)
        rm, delay, r0 = (np.broadcast_to(q, (d['n'] + 2, *q.shape)) for q in (rm, delay, r0))
        ma, signs = np.zeros(rm.shape), [0]
    single = 'Traj' in kind and obj.precision == 32
    blocks = zoo.collect(obj, d['num'])
    got = zoo.cat(blocks, steer.grid.size)
    r_diag = bool(getattr(obj, 'r_diag', False))
    bad, most = [], 0
    for s in signs:
        eff = rm * (1 - s * ma) ** 2
        amp = gains(steer.steer_type, eff, r0)
        start, msg = 0, ''
        for blk in blocks:
            blk = np.asarray(blk)
            n = len(blk)
            sl = slice(start, start + n)
            size = np.abs(x).max() * amp.sum(-1).max()
            out, pw, hist, points, clear = clean(x[start:], delay[sl], amp[sl], r0[sl], eff[sl], obj.n_iter, obj.damp, r_diag, 1e-3 if single else 1e-9)
            start += n
            most = max(most, len(points))
            if not clear:
                ctx.label('undecided')
                continue
            if 'Sq' in kind:
                want = out**2
                if r_diag:
                    if len(set(points)) < len(points):
                        ctx.label('repeated point (known finding)')
                        once = [g for g in range(steer.grid.size) if points.count(g) < 2]
                    else:
                        once = list(range(steer.grid.size))
                    want = want - obj.damp**2 * pw
                    want, blk = want[:, once], blk[:, once]
                size = size**2
            else:
                want = out
            tol = (1e-7 if not single else 3e-3) * size * (1 + len(points)) + 1e-300
            err = np.abs(blk - want)
            if err.size and err.max() > tol:
                i = np.unravel_index(err.argmax(), err.shape)
                msg = f'block from {start - n}: sample {i[0]}, point {i[1]} is {blk[i]}, expected {want[i]} (tolerance {tol}, points {points})'
                break
        if not msg:
            break
        bad.append(msg)
    else:
        ctx.fail(str(bad))
    if not obj.n_iter:
        ctx.check(not got.any(), 'output without any iteration')
    ctx.label(kind)
    ctx.interesting(steer.grid.size > 1 and most > 1)


@st.composite
def first_step(draw):
    d = draw(cleant())
    d['spec']['a']['n_iter'] = 1
    d['spec']['a'].pop('r_diag', None)
    d['spec']['k'] = d['spec']['k'].replace('Sq', '')
    d['spec']['a']['conv_amp'] = False
    if 'Traj' not in d['spec']['k']:
        d['spec']['a'].pop('conv_amp')
    return d


@subcheck(P, 'clean_first_step', first_step(), quick=150, rule='several grid points, a block with output')
def first_step_(d, ctx):
    """After one step, a block is zero but for the strongest point, with the damped output of delay-and-sum there."""
    obj = zoo.build(d['spec'])
    kw = {k: v for k, v in d['spec']['a'].items() if k not in ('n_iter', 'damp')}
    plain = zoo.build(S(d['spec']['k'].replace('Cleant', 'Time'), **kw))
    if 'Traj' in d['spec']['k'] and flight(obj, d['n'] + 2)[0].min() < 0.05:
        ctx.discard()
    a, b = zoo.collect(obj, d['num']), zoo.collect(plain, d['num'])
    ctx.equal([x.shape for x in a], [x.shape for x in b], 'blocks')
    for x, y in zip(a, b):
        x, y = np.asarray(x, float), np.asarray(y, float)
        p = (y**2).sum(0)
        at = np.flatnonzero(x.any(0))
        ctx.check(len(at) <= 1, f'output at points {at} after one step')
        if len(at):
            g = at[0]
            ctx.check(p[g] >= p.max() * (1 - 1e-4), f'point {g} taken, powers {p}')
            ctx.close(x[:, g], obj.damp * y[:, g], 'output', rtol=0, atol=1e-5 * np.abs(y).max())
            ctx.interesting(len(p) > 1)


@st.composite
def single(draw):
    s = draw(zoo.steer(lo=3, hi=5, g=zoo.import_grid(maxn=1), e=zoo.plain_env(), types=['true level', 'inverse']))
    return {'steer': s, 'n': draw(st.integers(700, 900)), 'freq': draw(fl(100, 400, 1)), 'damp': 0.6, 'n_iter': 20}


@subcheck(P, 'clean_autopower', single(), quick=0)
def clean_autopower_(d, ctx):
    """Witness of a known finding: without the auto power, the output at a source is that of BeamformerTimeSq."""
    steer = zoo.build(d['steer'])
    sig = ac.SineGenerator(freq=d['freq'], sample_freq=48000.0, num_samples=d['n'])
    src = ac.PointSource(signal=sig, mics=steer.mics, env=steer.env, loc=tuple(np.array(steer.grid.pos)[:, 0]), up=16)
    a = zoo.full(ac.BeamformerCleantSq(source=src, steer=steer, r_diag=True, n_iter=d['n_iter'], damp=d['damp']), 2048)
    b = zoo.full(ac.BeamformerTimeSq(source=src, steer=steer, r_diag=True), 2048)
    ctx.close(a, b, 'output at the only source', rtol=0, atol=0.1 * b.max())


@st.composite
def convective(draw):
    return {'vx': draw(fl(50, 120, 1))}


@subcheck(P, 'convective_amplification', convective(), quick=0)
def convective_(d, ctx):
    """Witness of a known finding: the amplification of an approaching source has to be compensated."""
    x = np.ones((60, 1))
    steer = ac.SteeringVector(grid=ac.ImportGrid(pos=np.array([[0.0], [0], [0]])), mics=ac.MicGeom(pos_total=np.array([[10.0], [0], [0]])), steer_type='inverse', ref=1.0)
    tr = ac.Trajectory(points={-1.0: (-d['vx'], 0, 0), 1.0: (d['vx'], 0, 0)})
    b = ac.BeamformerTimeTraj(source=ac.TimeSamples(data=x, sample_freq=1000.0), steer=steer, trajectory=tr, conv_amp=True)
    got = zoo.full(b, 8)[0, 0]
    ctx.close(got, 10 * (1 - d['vx'] / 343.0) ** 2, 'amplitude at the approaching source', rtol=1e-3)


# ------------------------------------------------------------------------------- sectors


@st.composite
def sectors(draw):
    g = draw(zoo.rect_grid(maxn=5))
    size = zoo.build(g).size
    n = draw(st.integers(1, 40))
    a = g['a']
    x, y = (fl(a[f'{q}_min'], a[f'{q}_max']) for q in 'xy')
    secs = []
    for _ in range(draw(st.integers(1, 3))):
        c = [min(max(draw(x), a['x_min']), a['x_max']), min(max(draw(y), a['y_min']), a['y_max'])]
        e = [min(max(draw(x), a['x_min']), a['x_max']), min(max(draw(y), a['y_min']), a['y_max'])]
        secs.append(draw(st.sampled_from([[*c, *e], [*c, draw(fl(0.05, 1.0))]])))
    return {'grid': g, 'data': draw(zoo.arrays([n, size])), 'sectors': secs, 'clip': draw(st.sampled_from([None, None, -10.0, -3.0, -350.0])), 'num': draw(st.integers(1, n + 3))}


@subcheck(P, 'sectors', sectors(), quick=200, rule='a sector with some of the points, several blocks')
def sectors_(d, ctx):
    """Sums over sectors of every sample; values too far below the maximum of the sample are left out."""
    grid = zoo.build(d['grid'])
    x = np.abs(zoo.arr(d['data'])).astype(float)
    kw = {} if d['clip'] is None else {'clip': d['clip']}
    obj = ac.IntegratorSectorTime(source=ac.TimeSamples(data=x, sample_freq=100.0), grid=grid, sectors=[tuple(s) for s in d['sectors']], **kw)
    ctx.equal(obj.num_channels, len(d['sectors']), 'num_channels')
    got = zoo.cat(zoo.collect(obj, d['num']), len(d['sectors']))
    ctx.shape(got, (len(x), len(d['sectors'])), 'output')
    some = False
    most = x.max(axis=1, keepdims=True)
    limit = most * 10 ** ((-350.0 if d['clip'] is None else d['clip']) / 10)
    kept = np.where(x > limit, x, 0)
    clear = ~((np.abs(x - limit) < 1e-12 * most) & (most > 0)).any(axis=1)  # no value close to the limit
    for j, s in enumerate(d['sectors']):
        mask = np.zeros(grid.shape, bool)
        mask[grid.indices(*s)] = True
        some |= bool(0 < mask.sum() < mask.size)
        ctx.close(got[clear, j], kept[clear][:, mask.reshape(-1)].sum(1), f'sector {s}', rtol=1e-9, atol=1e-12 * (x.max() + 1e-300))
    ctx.interesting(some and d['num'] < len(x))
