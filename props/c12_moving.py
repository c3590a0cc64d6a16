"""C12 moving sources radiate from where they were at emission time."""

import numpy as np
from hypothesis import strategies as st

from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C12'


def r6(x):
    return float(f'{x:.7g}')


@st.composite
def moving(draw, kind, nlo=10, nhi=70, chi=4, noise=False, resting=None, direction=True):
    """A source that passes an array; scaled so that the delays stay within the signal."""
    n, fs = draw(st.integers(nlo, nhi)), draw(st.sampled_from([100.0, 8000.0, 51200.0]))
    T = n / fs
    c = draw(fl(300, 400, 1))
    L = 8 * T * draw(st.sampled_from([1.0, 0.5]))
    nc = draw(st.integers(1, chi))
    start = round(draw(st.one_of(st.just(0.0), fl(-50, 50, 1))) / fs, 9)
    # the line source reads one sample ahead (known finding)
    late = 2.0 if 'Line' in kind else 0.0
    delta = round(draw(st.one_of(st.just(-late), fl(-n / 8 - late, -late, 1))) / fs, 9)
    p0 = L * np.array([draw(fl(-1, 1, 2)), draw(fl(-1, 1, 2)), draw(fl(1.2, 4, 2))])
    # velocity direction with a positive x component, so that it is never parallel to the rotation axis z
    u = np.array([1.0, draw(fl(-1, 1, 2)), draw(fl(-0.5, 0.5, 2))]) * draw(st.sampled_from([1, 1, -1]))
    u /= np.linalg.norm(u)
    rest = draw(st.integers(0, 7)) == 0 if resting is None else resting
    M = 0.0 if rest else draw(fl(0.02, 0.6, 2))
    tp = start + draw(fl(-0.1, 0.15, 2)) * T
    t0, t1 = start - 1.3 * T, start + 1.3 * T
    shape = draw(st.sampled_from(['line', 'line', 'curve']))
    pts = []
    if shape == 'line' or rest:
        for t in (t0, t1):
            pts.append([t, (p0 + M * c * (t - tp) * u).tolist()])
    else:
        # circular arc through p0 at tp
        w = np.cross(u, draw(st.sampled_from([[0.0, 0, 1], [0, 1.0, 0.2]])))
        w /= np.linalg.norm(w)
        R = M * c * T * draw(fl(1.5, 5, 1))
        for t in np.linspace(t0, t1, 25):
            phi = M * c * (t - tp) / R
            pts.append([float(t), (p0 + R * (np.sin(phi) * u + (1 - np.cos(phi)) * w)).tolist()])
    pts = [[r6(t), [r6(v) for v in p]] for t, p in pts]
    a = dict(signal=draw(zoo.signal(n, fs, noise_only=noise)), mics=draw(zoo.mics(n=nc, spread=r6(L))), env=S('Environment', c=c), up=draw(st.sampled_from([1, 2, 16])), start=start,
             start_t=round(start - delta, 9), trajectory=S('Trajectory', points={'points': pts}))
    amp = draw(st.booleans())
    if amp or draw(st.booleans()):
        a['conv_amp'] = amp
    if 'Line' in kind:
        ns = draw(st.integers(1, 3))
        a.update(length=r6(L * draw(fl(0.2, 2, 1))), num_sources=ns, source_strength={'arr': draw(st.sampled_from(['pos', 'normal'])), 'shape': [ns], 'seed': draw(zoo.seeds)})
    if kind != 'MovingPointSource':
        a['direction'] = {'tup': draw(st.sampled_from([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, -0.5, 0.0], [0.3, -0.4, 1.2]]))}
        if draw(st.integers(0, 2)) == 0 and not rest:
            a['rvec'] = {'lit': [0, 0, draw(st.sampled_from([1.0, -1.0, 2.0]))]}
    return {'spec': S(kind, **a), 'num': draw(st.integers(1, n + 3)), 'M': M}


def loc(obj, t, der=0):
    t = np.asarray(t, float)
    return np.array([np.asarray(v).reshape(t.shape) for v in obj.trajectory.location(t.reshape(-1), der=der)])


def emission(obj, t, off=0.0):
    """Emission times (samples, mics) by bisection; the source is subsonic, so the solution is unique."""
    m, c = obj.mics.pos, obj.env.c
    off = np.asarray(off, float)
    off = off.reshape(off.shape + (1,) * (3 - off.ndim)) if off.ndim else off

    def g(te):
        return te + np.sqrt(((loc(obj, te) + off - m[:, None, :]) ** 2).sum(0)) / c - t

    t = np.broadcast_to(t[:, None], (len(t), m.shape[1]))
    hi = t.copy()
    lo = t - 1.1 * obj.num_samples / obj.sample_freq
    assert (g(lo) <= 0).all(), 'generator: delay too long'
    for _ in range(80):
        mid = (lo + hi) / 2
        pos = g(mid) > 0
        hi, lo = np.where(pos, mid, hi), np.where(pos, lo, mid)
    return (lo + hi) / 2


def received(obj, shift=0):
    return obj.start + (np.arange(obj.num_samples) + shift) / obj.sample_freq


def span(obj, te):
    """Smallest and largest signal value the nearest upsampled sample may have (the solver works to 0.1 of it)."""
    sig = obj.signal.usignal(obj.up)
    x = (te - obj.start_t) * obj.sample_freq * obj.up
    v = []
    for d in (-0.11, 0.11):
        for f in (np.floor, np.trunc):
            i = f(x + 0.5 + d).astype(int)
            assert (i <= len(sig)).all() and (i >= -len(sig)).all(), 'generator: index'
            v.append(sig[np.minimum(i, len(sig) - 1)])
    return np.min(v, 0), np.max(v, 0)


def factors(obj, te, off=0.0):
    """Distance, the accepted amplitude factors, and the uncertainty of the distance."""
    p, vel, m, c = loc(obj, te), loc(obj, te, 1), obj.mics.pos[:, None, :], obj.env.c
    off = np.asarray(off, float)
    off = off.reshape(off.shape + (1,) * (3 - off.ndim)) if off.ndim else off
    rv = p + off - m
    r = np.sqrt((rv**2).sum(0))
    mr = (vel * rv).sum(0) / r / c
    po = p + off
    mo = (vel * po).sum(0) / np.sqrt((po**2).sum(0)) / c
    tol = np.sqrt((vel**2).sum(0)) * 0.11 / obj.up / obj.sample_freq
    # the first is the physical one, the others (used by the library, a known finding) only differ in the reference of the radial Mach number
    f = {'mic': (1 + mr) ** 2, 'mic-': (1 - mr) ** 2, 'origin-': (1 - mo) ** 2} if obj.conv_amp else {'': np.ones_like(r)}
    return r, f, tol


def quotient(lo, hi, r, tol):
    """Bounds of signal / distance."""
    c = np.array([lo / (r - tol), lo / (r + tol), hi / (r - tol), hi / (r + tol)])
    return c.min(0), c.max(0)


def judge(ctx, out, variants, what):
    best = None
    for name, (lo, hi) in variants.items():
        ctx.shape(out, lo.shape, what)
        tol = 1e-7 * max(np.abs(lo).max(), np.abs(hi).max(), 1e-300)
        bad = (out < lo - tol) | (out > hi + tol)
        if not bad.any():
            return name
        if best is None or bad.sum() < best[0]:
            i = tuple(np.argwhere(bad)[0])
            best = bad.sum(), f'{what} [{name}]: sample {i[0]}, microphone {i[1]} is {out[i]!r}, expected {lo[i]!r} .. {hi[i]!r} ({bad.sum()} of {bad.size} wrong)'
    ctx.fail(best[1])


@subcheck(P, 'monopole', moving('MovingPointSource'), quick=260, shards=2, rule='Mach number above 0.1')
def monopole_(d, ctx):
    obj = zoo.build(d['spec'])
    te = emission(obj, received(obj))
    lo, hi = span(obj, te)
    r, f, tol = factors(obj, te)
    if (tol > 0.5 * r).any():
        ctx.discard()
    variants = {}
    for k, v in f.items():
        # the Mach number changes at most by this while the emission time does
        rel = 1 + 6 * tol / r * d['M'] if k else 1
        a, b = quotient(lo, hi, r * v, r * v * (1 - (1 - tol / r) / rel))
        variants[k] = a, b
    out = zoo.full(obj, d['num'])
    name = judge(ctx, out, variants, 'MovingPointSource')
    ctx.label(name, 'rest' if d['M'] == 0 else '', len(obj.trajectory.points) > 2 and 'curve')
    ctx.interesting(d['M'] > 0.1 and np.abs(out).max() > 0)


def turned(obj, v, te0):
    """Orientation of a direction vector at emission time te0 (the definition given for a rotation axis)."""
    w = np.array(obj.rvec, float)
    if not w.any():
        return np.broadcast_to(np.asarray(v, float)[:, None], (3, len(te0)))
    dx = loc(obj, te0, 1)
    dy = np.cross(w, dx.T).T
    dz = np.cross(dx.T, dy.T).T
    e = [x / np.linalg.norm(x, axis=0) for x in (dx, dy, dz)]
    nd = e[0] * v[0] + e[1] * v[1] + e[2] * v[2]
    return np.cross(nd.T, w).T


@subcheck(P, 'dipole', moving('MovingPointSourceDipole'), quick=200, shards=2, rule='Mach number above 0.1')
def dipole_(d, ctx):
    obj = zoo.build(d['spec'])
    te = emission(obj, received(obj))
    lo, hi = span(obj, te)
    r, f, tol = factors(obj, te)
    v = np.array(obj.direction, float)
    n = turned(obj, v / np.linalg.norm(v), te[:, 0])
    m = obj.mics.pos[:, None, :]
    variants = {}
    # known finding: the distances belong to the emission time for the first microphone
    for which, t in (('own', te), ('first', np.broadcast_to(te[:, :1], te.shape))):
        rv = loc(obj, t) - m
        rr = np.sqrt((rv**2).sum(0))
        # (1/|rv+n h| - 1/|rv-n h|) / (2 h) for h -> 0
        q = -(rv * n[:, :, None]).sum(0) / rr**3
        dq = np.linalg.norm(n, axis=0)[:, None] * (4 * tol / (rr - tol) ** 3 + tol / r * 4 / rr**2) + 1e-4 * np.abs(q) + 1e-5 / rr**3 * obj.env.c / obj.sample_freq
        for k, w in ({'none': 1.0} | f).items():
            g = r * q / w
            dg = r * dq / np.min(w) * (1 + tol / r) + np.abs(g) * 6 * tol / r
            c = np.array([lo * (g - dg), lo * (g + dg), hi * (g - dg), hi * (g + dg)])
            variants[f'{which} {k}'] = c.min(0), c.max(0)
    out = zoo.full(obj, d['num'])
    name = judge(ctx, out, variants, 'MovingPointSourceDipole')
    ctx.label(name, 'rotating' if obj.rvec.any() else '')
    ctx.interesting(d['M'] > 0.1 and np.abs(out).max() > 0)


@subcheck(P, 'line_source', moving('MovingLineSource', nlo=12, noise=False), quick=160, shards=2, rule='Mach number above 0.1, several monopoles')
def line_(d, ctx):
    obj = zoo.build(d['spec'])
    v = np.array(obj.direction, float)
    v = v / np.linalg.norm(v) * obj.length / obj.num_sources
    m = obj.mics.pos[:, None, :]
    variants = {}
    for shift in (0, 1):  # known finding: one sample early
        t = received(obj, shift)
        te1 = emission(obj, t)
        parts = {}
        for s in range(obj.num_sources):
            off = turned(obj, v, te1[:, 0]) * s
            te = emission(obj, t, off[:, :, None] if s else 0.0)
            lo, hi = (q * obj.source_strength[s] for q in span(obj, te))
            lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
            _, f, tol = factors(obj, te, off[:, :, None])
            off = turned(obj, v, te[:, 0])[:, :, None] * s
            for which, tt in (('own', te), ('first', np.broadcast_to(te[:, :1], te.shape))):
                r = np.sqrt(((loc(obj, tt) + off - m) ** 2).sum(0))
                if (tol > 0.3 * r).any():
                    ctx.discard()
                for k, w in ({'none': np.ones_like(r)} | f).items():
                    tw = tol + (6 * tol / r * d['M'] * r if k not in ('', 'none') else 0)
                    for mode in ('all', 'last'):
                        fac = w if mode == 'all' or s == obj.num_sources - 1 else np.ones_like(r)
                        if (tw >= r).any():
                            ctx.discard()
                        a, b = quotient(lo, hi, r * fac, tw * fac)
                        p = parts.get((which, k, mode), (0, 0))
                        parts[which, k, mode] = p[0] + a, p[1] + b
        variants |= {f'{shift} {k}': p for k, p in parts.items()}
    out = zoo.full(obj, d['num'])
    name = judge(ctx, out, variants, 'MovingLineSource')
    ctx.label(name, 'rotating' if obj.rvec.any() else '')
    ctx.interesting(d['M'] > 0.1 and obj.num_sources > 1 and np.abs(out).max() > 0)


STATIC = {'MovingPointSource': 'PointSource', 'MovingLineSource': 'LineSource'}


@subcheck(P, 'resting', moving('MovingPointSource', resting=True), quick=150, rule='the source is heard')
def resting_(d, ctx):
    """A source that does not move gives the pressure of the stationary source of the same kind."""
    mov = zoo.build(d['spec'])
    a = dict(d['spec']['a'])
    p = a.pop('trajectory')['a']['points']['points'][0][1]
    a.pop('conv_amp', None)
    a.pop('rvec', None)
    fix = zoo.build(S(STATIC[d['spec']['k']], **a, loc={'tup': p}))
    x = ((np.arange(mov.num_samples)[:, None] / mov.sample_freq + mov.start - mov.start_t) - fix.env._r(np.array(p).reshape(3, 1), mov.mics.pos).reshape(-1) / mov.env.c) * mov.sample_freq * mov.up
    safe = np.abs(x + 0.5 - np.rint(x + 0.5)) > 1e-5
    o1, o2 = zoo.full(mov, d['num']), zoo.full(fix, d['num'])
    ctx.shape(o1, o2.shape, d['spec']['k'])
    ctx.close(np.where(safe, o1, 0), np.where(safe, o2, 0), f'resting {d["spec"]["k"]}', rtol=1e-9, scale=np.abs(o2).max() + 1e-300)
    ctx.interesting(np.abs(o2).max() > 0)


@st.composite
def amplified(draw):
    d = draw(moving('MovingPointSource', nlo=10, nhi=30, chi=3, resting=True))
    d['spec']['a']['conv_amp'] = True
    return d


@subcheck(P, 'convective_amplification', amplified(), quick=60, rule='the source is heard')
def amplified_(d, ctx):
    """The amplitude is divided by (1 + Mr)^2 with the radial Mach number away from the microphone (1 at rest)."""
    obj = zoo.build(d['spec'])
    te = emission(obj, received(obj))
    rv = loc(obj, te) - obj.mics.pos[:, None, :]
    mr = (loc(obj, te, 1) * rv).sum(0) / np.sqrt((rv**2).sum(0)) / obj.env.c
    on = zoo.full(obj, d['num'])
    obj.conv_amp = False
    off = zoo.full(obj, d['num'])
    ctx.close(on, off / (1 + mr) ** 2, 'pressure with convective amplification', rtol=2e-2)
    ctx.interesting(np.abs(off).max() > 0)


@subcheck(P, 'emission_positions', st.sampled_from(['MovingPointSourceDipole', 'MovingLineSource']).flatmap(lambda k: st.one_of(moving(k, chi=1, nhi=30), moving(k, resting=True, nhi=30))), quick=80, rule='the source is heard')
def emission_positions_(d, ctx):
    """Every microphone hears the same in an array as alone."""
    spec = d['spec']
    obj = zoo.build(spec)
    pos = np.array(obj.mics.pos)
    out = zoo.full(obj, d['num'])
    for m in range(pos.shape[1]):
        one = zoo.full(zoo.build(zoo.patched(spec, ['mics'], S('MicGeom', pos_total={'lit': pos[:, [m]].tolist()}))), d['num'])
        ctx.close(out[:, [m]], one, f'{spec["k"]}: microphone {m} in the array and alone', rtol=1e-3, scale=np.abs(one).max() + 1e-300)
    ctx.interesting(np.abs(out).max() > 0)
