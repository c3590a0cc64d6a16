"""C17 trajectories interpolate their points smoothly."""

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline

import acoular as ac
from vlib.core import subcheck
from vlib.zoo import fl

P = 'C17'


@st.composite
def points(draw):
    n = draw(st.integers(2, 8))
    t0 = draw(st.sampled_from([0.0, -1.0, -5.5, 0.25, 100.0]))
    ts = [t0]
    for _ in range(n - 1):
        ts.append(round(ts[-1] + draw(fl(0.2, 2, 2)), 4))
    pts = [[t, [draw(fl(-10, 10, 2)) for _ in range(3)]] for t in ts]
    return draw(st.permutations(pts))


def spline(pts):
    pts = sorted(pts)
    t = np.array([p[0] for p in pts])
    x = np.array([p[1] for p in pts])
    k = min(3, len(pts) - 1)
    return make_interp_spline(t, x, k=k), t, x, k


def tr(pts):
    return ac.Trajectory(points={t: tuple(p) for t, p in pts})


@subcheck(P, 'location', st.fixed_dictionaries({'pts': points(), 'frac': st.lists(fl(0, 1), min_size=1, max_size=6), 'der': st.integers(0, 3)}),
          quick=1200, shards=2, rule='more than two points')
def location(d, ctx):
    s, t, x, k = spline(d['pts'])
    o = tr(d['pts'])
    sc = np.abs(x).max() + 1.0
    ctx.close(np.array(o.interval), t[[0, -1]], 'Trajectory.interval', rtol=1e-12)
    ctx.close(np.array(o.location(t)).T, x, 'location at the given points', rtol=1e-7, scale=sc)
    tt = t[0] + np.array(d['frac']) * (t[-1] - t[0])
    der = min(d['der'], k)
    h = np.diff(t).min()
    tol = sc * (1 / h) ** der * 100
    ctx.close(np.array(o.location(tt, der=der)).T, s(tt, nu=der), f'location, derivative {der}', rtol=1e-8, scale=tol)
    one = o.location(float(tt[0]), der)
    ctx.close(np.array(one, float), s(tt[0], nu=der), 'location at a single time', rtol=1e-8, scale=tol)
    if der + 1 <= k:
        # derivatives belong to the curve itself: central difference
        e = 1e-5 * h
        tm = np.clip(tt, t[0] + 2 * e, t[-1] - 2 * e)
        inner = np.array([np.abs(v - t).min() > 2 * e for v in tm])
        num = (np.array(o.location(tm + e, der)) - np.array(o.location(tm - e, der))) / (2 * e)
        ctx.close(num[:, inner], np.array(o.location(tm, der + 1))[:, inner], f'derivative {der + 1} against finite differences', rtol=1e-3, scale=tol / h)
    ctx.interesting(len(t) > 2)


@st.composite
def steps(draw):
    pts = draw(points())
    t = sorted(p[0] for p in pts)
    span = t[-1] - t[0]
    a = round(t[0] + draw(fl(0, 0.6, 2)) * span, 3)
    mode = draw(st.sampled_from(['interval', 'start', 'range', 'range', 'zero']))
    b = round(a + draw(fl(0, 0.4, 2)) * span, 3)
    if mode == 'zero':
        a, b = min(a, round(-0.3 * span, 3)), 0.0
    return {'pts': pts, 'mode': mode, 'a': a, 'b': b, 'dt': round(span / draw(st.integers(1, 60)), 4) or 0.01, 'der': draw(st.integers(0, 1))}


@subcheck(P, 'steps', steps(), quick=800, rule='at least two steps')
def steps_(d, ctx):
    s, t, x, k = spline(d['pts'])
    o = tr(d['pts'])
    if d['mode'] in ('range', 'zero') and d['b'] - d['a'] < 1e-9:
        return
    dt, der, m = d['dt'], d['der'], d['mode']
    if m == 'interval':
        a, b = t[0], t[-1]
        got = list(o.traj(dt, der=der))
    elif m == 'start':
        a, b = d['a'], t[-1]
        got = list(o.traj(a, delta_t=dt, der=der))
    else:
        a, b = d['a'], d['b']
        got = list(o.traj(a, b, dt, der))
    n = len(got)
    q = (b - a) / dt
    # half-open interval; one step of tolerance only if the quotient is an integer up to rounding
    ok = {int(np.ceil(q))} if abs(q - round(q)) > 1e-6 else {round(q), round(q) + 1}
    ctx.check(n in {max(v, 0) for v in ok}, lambda: f'traj over [{a}, {b}) with step {dt} yields {n} points')
    if n:
        want = s(a + np.arange(n) * dt, nu=der)
        sc = max(np.abs(want).max(), (np.abs(x).max() + 1.0) / np.diff(t).min() ** der)
        ctx.close(np.array(got, float), want, 'traj points', rtol=1e-6, scale=sc)
    ctx.interesting(n > 1)
    ctx.label(m)
