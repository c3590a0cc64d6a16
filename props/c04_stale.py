"""C04 after any change, objects behave as if freshly built that way."""

import copy

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import files
from vlib import objects as ob
from vlib import zoo
from vlib.core import subcheck

P = 'C04'


def value_of(spec, var):
    """The values the spec has at the moment for the traits of a variation (None: a default)."""
    a = ob.at(spec, var['p'])['a']
    return {k: a[k] for k in var['v']} if all(k in a for k in var['v']) else None


@st.composite
def history(draw, tree, only=None, extra=None, maxops=6):
    """A tree and assignments in it; values may return to earlier ones."""
    spec = draw(tree)
    cur, ops, past = spec, [], []
    for _ in range(draw(st.integers(1, maxops))):
        kind = draw(st.sampled_from(['set', 'set', 'set', 'back', 'replace', 'inplace', 'read']))
        if kind == 'back' and past:
            var = draw(st.sampled_from(past))
            kind = 'set'
        elif kind == 'read':
            ops.append({'op': 'read', 'i': draw(st.lists(st.integers(0, 200), min_size=1, max_size=4))})
            continue
        else:
            kind = kind if kind in ('replace', 'inplace') else 'set'
            if extra and kind == 'set' and draw(st.integers(0, 2)) == 0:
                var = draw(extra)
            else:
                var = draw(ob.variation(cur, only))
            old = value_of(cur, var)
            if old is not None:
                past.append({'p': var['p'], 'v': old})
        if kind == 'replace' and not var['p']:
            kind = 'set'
        ops.append({'op': kind, **var, 'then': draw(st.sampled_from(['all', 'all', 'some', 'nothing'])), 'i': draw(st.lists(st.integers(0, 200), min_size=1, max_size=4))})
        cur = ob.changed(cur, var)
    return {'spec': spec, 'first': draw(st.sampled_from(['all', 'all', 'some', 'nothing'])), 'i': draw(st.lists(st.integers(0, 200), min_size=1, max_size=4)), 'ops': ops}


def all_reads(obj, spec):
    out = []
    for p, s in ob.nodes(spec):
        o = ob.get(obj, p)
        name = '.'.join(map(str, p)) or s['k']
        out += [(f'{name}({s["k"]}) {n}' if p else f'{name} {n}', f) for n, f in sorted(ob.reads(o).items())]
    return out


def compare(ctx, live, spec, which, what):
    """Results of the living tree against those of a tree built now; returns the number of comparisons."""
    kind, fresh = ob.attempt(lambda: zoo.build(spec))
    if kind == 'exc':
        return 0
    want = all_reads(fresh, spec)
    try:
        got = all_reads(live, spec)
    except Exception as e:  # noqa: BLE001
        ctx.fail(f'{what}: the objects are not there: {e!r}')
    if which is not None:
        idx = [i % len(want) for i in which]
        want, got = [want[i] for i in idx], [got[i] for i in idx]
    done = 0
    for (name, f), (name2, g) in zip(want, got):
        k, w = ob.attempt(f)
        kl, v = ob.attempt(g)
        if k == 'exc':
            continue
        if kl == 'exc':
            ctx.fail(f'{what}: {name} raises {v!r}, a new object gives {str(w)[:80]}')
        if name.endswith((' .digest', '.inv_digest', '.sdigest', '.basename', '.grid_digest')):
            ctx.check(v == w, lambda: f'{what}: {name} differs from that of a new object')
        else:
            ob.same(ctx, v, w, f'{what}: {name}')
        done += 1
    return done


def run(d, ctx):
    """Assignments and reads in any order; after each of them the tree gives what a new one gives."""
    ac.config.global_caching = 'none'
    spec = copy.deepcopy(d['spec'])
    live = zoo.build(spec)
    ctx.label(spec['k'])

    def look(how, which, what):
        if how != 'nothing':
            return compare(ctx, live, spec, None if how == 'all' else which, what)
        return 0

    look(d['first'], d['i'], 'before')
    done = 0
    for j, op in enumerate(d['ops']):
        if op['op'] == 'read':
            look('some', op['i'], f'step {j} read')
            continue
        new = ob.changed(spec, op)
        what = f'step {j} {op["op"]} {".".join(map(str, op["p"]))} {sorted(op["v"])}'
        if op['op'] == 'replace':
            k, new_ok = ob.attempt(lambda: zoo.build(ob.at(new, op['p'])))
            if k == 'exc':
                continue
            k, e = ob.attempt(lambda: ob.replace(live, new, op['p']))
            if k == 'exc':
                continue
        else:
            k, e = ob.attempt(lambda: (ob.inplace if op['op'] == 'inplace' else ob.assign)(live, op))
            if k == 'exc':
                if len(op['v']) > 1:
                    ctx.discard()
                continue
        spec = new
        done += bool(look(op['then'], op['i'], what))
    n = compare(ctx, live, spec, None, 'at the end')
    ctx.interesting(done and n)


def spectra_extra():
    return st.one_of(*[v({}).map(lambda x, k=k: {'p': [], 'v': {k: x}}) for k, v in ob.SPECTRA_EXTRA.items()])


def beamf_extra():
    return st.one_of(*[v({}).map(lambda x, k=k: {'p': ['freq_data'], 'v': {k: x}}) for k, v in ob.SPECTRA_EXTRA.items() if k != 'freq_range'])


QUICK = {'gridless': 8, 'time': 900, 'masked': 400, 'fft': 300, 'spectra': 150, 'beamformer': 250, 'timebeam': 200, 'psf': 120, 'steer': 250, 'geometry': 400, 'signal': 300, 'rotation': 120}
EXTRA = {'spectra': spectra_extra()}
for _n, _t in ob.TREES.items():
    subcheck(P, _n, history(_t(), extra=EXTRA.get(_n)), quick=QUICK[_n], shards=4 if _n in ('time', 'beamformer') else 2 if _n in ('timebeam', 'masked', 'geometry') else 1, rule='a change was followed by a comparison, and at the end')(run)
subcheck(P, 'solvers', history(ob.solver_tree(), only=lambda p, s, t: not p, maxops=8), quick=100, shards=2, rule='a change was followed by a comparison, and at the end')(run)


@st.composite
def file_series(draw):
    k = draw(st.sampled_from(files.KINDS))
    return {'kind': k, 'content': draw(files.contents(k)), 'edits': draw(st.lists(files.edits(k), min_size=1, max_size=3)), 'look': draw(st.booleans()), 'back': draw(st.booleans()), 'one': draw(st.booleans())}


def users_of(o):
    """Objects that use what was read from the file, and what they compute from it."""
    if isinstance(o, ac.TimeSamples):
        p = ac.TimePower(source=o)
        ps = ac.PowerSpectra(source=o, block_size=128, overlap='None')
        return {
            'TimePower': (p, lambda: [zoo.cat(zoo.collect(p, 5), p.num_channels), p.sample_freq, p.num_samples, p.digest]),
            'PowerSpectra': (ps, lambda: [ps.fftfreq(), ps.csm, ps.num_channels, ps.digest]),
        }
    if isinstance(o, ac.Calib):
        o.source = ac.TimeSamples(data=np.arange(1.0, 1 + 3 * len(o.data)).reshape(3, -1), sample_freq=1.0)
        return {'Calib': (o, lambda: [zoo.cat(zoo.collect(o, 2)), o.digest])}
    g, m = ac.ImportGrid(pos=np.array([[0.0, 0.5], [0.25, 0], [2, 2.5]])), ac.MicGeom(pos_total=np.array([[0.0, 0.5, -1], [0.25, 0, 0.125], [0, 0, 0]]))
    s = ac.SteeringVector(**({'mics': o, 'grid': g} if isinstance(o, ac.MicGeom) else {'mics': m, 'grid': o}))
    return {'SteeringVector': (s, lambda: [s.r0, s.rm, s.transfer(300.0), s.steer_vector(300.0), s.digest])}


@subcheck(P, 'files', file_series(), quick=300, rule='another file with different contents')
def files_(d, ctx):
    """After another file was assigned, an object and what uses it behave as if built with that file."""
    ac.config.global_caching = 'none'
    k = d['kind']
    ext = '.h5' if 'Samples' in k else '.xml'
    paths = []
    for i, e in enumerate([{'how': 'keep'}] + d['edits']):
        paths.append(ctx.path(f'{i}/x{"" if d["one"] else i}{ext}'))
        files.write(paths[-1], k, *files.edited(d['content'], k, e))
    if d['back']:
        paths.append(paths[0])
    o = getattr(ac, k)(file=paths[0])
    users = users_of(o)
    if d['look']:
        files.content(o)
        for _, f in users.values():
            ob.attempt(f)
    for i, path in enumerate(paths[1:]):
        what = f'after file {i + 1} was assigned'
        old = files.content(o)
        o.file = path
        new = getattr(ac, k)(file=path)
        ref, got = files.content(new), files.content(o)
        for n in ref:
            ob.same(ctx, got[n], ref[n], f'{k}.{n} {what}')
        if k == 'Calib' and len(new.data) != users['Calib'][0].source.num_channels:
            return
        fresh = users_of(new)
        ctx.equal(o.digest, new.digest, f'{k}.digest {what}')
        if 'Samples' in k and d['one'] and all(np.shape(old[n]) == np.shape(ref[n]) for n in ref) and old['samples'][0].sum() == ref['samples'][0].sum():
            return  # known finding h5_first_row
        for n, (_, f) in fresh.items():
            a, x = ob.attempt(f)
            b, y = ob.attempt(users[n][1])
            if a == 'ok':
                ctx.check(b == 'ok', lambda: f'{n} fails {what} to the {k}: {y!r}')
                for v, w in zip(y, x):
                    ob.same(ctx, v, w, f'{n} {what} to the {k}')
        ctx.interesting(d['edits'][min(i, len(d['edits']) - 1)]['how'] != 'none')
    ctx.label(k)
