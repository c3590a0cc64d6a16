"""C05 the result cache is transparent."""

import gc
import glob
import hashlib
import os
import shutil

import h5py
import numpy as np
from hypothesis import strategies as st
from traits.api import Instance, Int, Property

import acoular as ac
from vlib import core, zoo, zygote
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C05'
MODES = ['none', 'individual', 'all', 'readonly', 'overwrite']
LIBS = ['tables', 'h5py']


class Interrupted(Exception):
    pass


class Faulty(ac.TimeOut):
    """Passes its source on; when armed, it raises instead of delivering the n-th block."""

    source = Instance(ac.SamplesGenerator)
    fail_at = Int(-1)
    digest = Property(depends_on=['source.digest'])

    def _get_digest(self):
        return self.source.digest + 'f'

    def result(self, num):
        for i, b in enumerate(self.source.result(num)):
            if i == self.fail_at:
                raise Interrupted
            yield b


ac.Faulty = Faulty  # so that specs can name it


# ---------------------------------------------------------------------------------- histories
def ops_strategy(patch, read):
    op = st.one_of(
        st.tuples(st.just('mode'), st.sampled_from(MODES)),
        st.tuples(st.just('read'), read),
        st.tuples(st.just('read'), read),
        st.tuples(st.just('read'), read),
        st.tuples(st.just('set'), patch),
        st.tuples(st.just('set'), patch),
        st.tuples(st.just('new'), st.booleans()),
        st.tuples(st.just('restart'), st.sampled_from(['same', 'same', 'newdir', 'lib'])),
        st.tuples(st.just('break'), st.tuples(st.integers(0, 3), read)),
        st.tuples(st.just('poison'), st.booleans()),
    )
    return st.lists(op, min_size=2, max_size=14)


@st.composite
def hist(draw, spec, patch, read):
    return {'spec': draw(spec), 'ops': [['mode', draw(st.sampled_from(['all', 'individual', 'readonly', 'overwrite']))], *draw(ops_strategy(patch, read)), ['read', draw(read)]], 'lib': draw(st.sampled_from(LIBS))}


def locate(spec, ctx):
    """Replace file placeholders by files in the scratch directory."""
    if isinstance(spec, dict):
        return {k: locate(v, ctx) for k, v in spec.items()}
    if isinstance(spec, list):
        return [locate(v, ctx) for v in spec]
    if isinstance(spec, str) and spec.startswith('@'):
        f = ctx.path(spec[1:])
        if not os.path.exists(f):
            seed = int(hashlib.md5(spec.encode()).hexdigest()[:6], 16)
            with h5py.File(f, 'w') as h:
                h['time_data'] = np.random.RandomState(seed).standard_normal((400, 3))
                h['time_data'].attrs['sample_freq'] = 1000.0
        return f
    return spec


def h5files(d):
    return sorted(glob.glob(os.path.join(d, '**', '*.h5'), recursive=True))


def files(d, ctx):
    """Logical content of the cache files (closing a file changes its bytes, but nothing that is stored)."""
    out = {}
    for f in sorted(glob.glob(os.path.join(d, '**', '*'), recursive=True)):
        if not os.path.isfile(f):
            continue
        tmp = ctx.path('copy.h5')
        shutil.copyfile(f, tmp)
        with h5py.File(tmp, 'r', locking=False) as h:
            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    m = hashlib.md5(repr((o.shape, str(o.dtype), sorted((k, str(v)) for k, v in o.attrs.items()))).encode())
                    if o.chunks:
                        for i in range(o.id.get_num_chunks()):
                            info = o.id.get_chunk_info(i)
                            m.update(repr(info.chunk_offset).encode() + o.id.read_direct_chunk(info.chunk_offset)[1])
                    else:
                        m.update(o[()].tobytes())
                    out[os.path.relpath(f, d) + ':' + name] = m.hexdigest()
            h.visititems(visit)
        out[os.path.relpath(f, d)] = ''
        os.remove(tmp)
    return out


def flush():
    from acoular.h5cache import H5cache

    for f in list(H5cache.open_files.values()):
        try:
            f.flush()
        except Exception:  # noqa: BLE001
            pass


def poison(d):
    """Make every cached number in the directory wrong (nobody has the files open)."""
    n = 0
    for f in h5files(d):
        if str(ac.config.h5library) == 'h5py':
            with h5py.File(f, 'r+') as h:
                sets = []
                h.visititems(lambda name, o: sets.append(o) if isinstance(o, h5py.Dataset) and o.dtype.kind in 'fc' else None)
                for o in sets:
                    o[...] = o[...] * 3 + 1
                    n += 1
        else:
            import tables

            with tables.open_file(f, 'a') as h:
                for o in h.walk_nodes('/', 'Array'):
                    if o.dtype.kind in 'fc':
                        o[:] = o[:] * 3 + 1
                        n += 1
    return n


def run_history(d, ctx, read, keeps_node=False):
    """``read(obj, how)`` returns a list of arrays; it is also used on a fresh object without cache.

    ``keeps_node``: a result that was opened in a writing mode stays attached to its cache node when
    the mode changes (beamformers), so that only objects created in the new mode are judged.
    """
    dirs = [ctx.path('cache0')]
    ac.config.h5library = d['lib']
    ac.config.cache_dir = dirs[0]
    spec = d['spec']
    mode = 'none'
    live, attached = None, False
    oracle = {}
    seen_modes, hits, faults, dirty = set(), 0, 0, False

    def expected(how):
        key = core.canon([spec, how])
        if key not in oracle:
            ac.config.global_caching = 'none'
            try:
                oracle[key] = [np.array(a) for a in read(zoo.build(locate(spec, ctx)), how)]
            except np.linalg.LinAlgError:  # the inverse of a singular matrix
                ctx.discard()
            ac.config.global_caching = mode
        return oracle[key]

    def restart(kind='same'):
        nonlocal live, attached
        live, attached = None, False
        gc.collect()
        core.close_h5()
        if kind == 'lib':  # the compression of one library cannot be read by the other
            ac.config.h5library = LIBS[1 - LIBS.index(str(ac.config.h5library).replace('pytables', 'tables'))]
        if kind in ('newdir', 'lib'):
            dirs.append(ctx.path(f'cache{len(dirs)}'))
            ac.config.cache_dir = dirs[-1]

    import io
    from contextlib import redirect_stdout, suppress

    for i, (op, arg) in enumerate(d['ops']):
        what = f'step {i} {op} {arg} (mode {mode}, {ac.config.h5library})'
        if op == 'mode':
            if dirty and arg != 'overwrite':
                continue  # poisoned data may only be met in mode overwrite
            if keeps_node and live is not None and arg in ('none', 'readonly') and arg != mode and i % 2:
                live = None  # new objects in the new mode
                gc.collect()
            mode = arg
            ac.config.global_caching = mode
            attached = live is not None
        elif op == 'set':
            spec = zoo.patched(spec, arg['path'], arg['value'])
            if live is not None:
                zoo.apply(live, arg['path'], locate(arg['value'], ctx))
        elif op == 'new':
            if arg:
                live = None
                gc.collect()
            live = zoo.build(locate(spec, ctx))
            attached = False
        elif op == 'restart':
            restart(arg)
        elif op == 'poison':
            restart()
            # after this, everything that is cached in this directory is wrong: only "overwrite" may follow, in a new process
            if poison(dirs[-1]):
                dirty = True
                ctx.label('poisoned')
                mode = 'overwrite'
                ac.config.global_caching = mode
        elif op == 'break':
            k, how = arg
            if live is None:
                live = zoo.build(locate(spec, ctx))
            f = find_faulty(live) if 'stop' not in d else None
            if 'stop' in d:
                with redirect_stdout(io.StringIO()), suppress(KeyboardInterrupt, np.linalg.LinAlgError), zygote.interrupted(d['stop'] + 7 * k):
                    read(live, how)
                gc.collect()
            if f is not None:
                f.fail_at = k
                try:
                    with redirect_stdout(io.StringIO()):
                        read(live, how)
                except Interrupted:
                    faults += 1
                except np.linalg.LinAlgError:  # the inverse of a singular matrix
                    ctx.discard()
                f.fail_at = -1
                gc.collect()
        elif op == 'read':
            exp = expected(arg)
            if live is None:
                live = zoo.build(locate(spec, ctx))
            before = None
            if mode in ('none', 'readonly') and not (keeps_node and attached):
                flush()
                before = files(dirs[-1], ctx)
            if dirty:  # new objects only: results in memory are right anyway
                live = zoo.build(locate(spec, ctx))
            with redirect_stdout(io.StringIO()):
                got = read(live, arg)
            ctx.equal(len(got), len(exp), f'{what}: number of results')
            for j, (g, e) in enumerate(zip(got, exp)):
                ctx.close(np.asarray(g), e, f'{what}: result {j} with cache', rtol=1e-9 if {str(e.dtype), str(np.asarray(g).dtype)} <= {'float64', 'complex128'} else 1e-5)
            if before is not None:
                flush()
                ctx.equal(files(dirs[-1], ctx), before, f'{what}: cache files')
            seen_modes.add(mode)
            hits += 1
    live = None
    gc.collect()
    ctx.label(*(f'mode {m}' for m in seen_modes))
    if faults:
        ctx.label('interrupted')
    ctx.interesting(hits > 1 and bool(seen_modes - {'none'}))


def find_faulty(o):
    while o is not None:
        if isinstance(o, Faulty):
            return o
        if isinstance(o, ac.fbeamform.BeamformerBase):
            o = o.freq_data
        else:
            o = getattr(o, 'source', None)
    return None


data = zoo.arrays([400, 3], kinds=('normal',))
tsource = st.one_of(data.map(lambda a: S('TimeSamples', data=a, sample_freq=1000.0)), st.sampled_from(['@a.h5', '@b.h5', '@sub.h5']).map(lambda f: S('TimeSamples', file=f)))


def P_(path, value):
    return {'path': path, 'value': value}


# ---------------------------------------------------------------------------------- Cache
@st.composite
def timecache(draw):
    n, c = draw(st.integers(1, 40)), draw(st.integers(1, 3))
    src = draw(st.one_of(zoo.arrays([n, c], kinds=('normal', 'ramp'), scales=(1.0,)).map(lambda a: S('TimeSamples', data=a, sample_freq=1000.0)), st.sampled_from(['@a.h5', '@b.h5']).map(lambda f: S('TimeSamples', file=f))))
    src = S('Faulty', source=src)
    k = draw(st.sampled_from(['TimePower', 'FiltOctave', 'RFFT', 'none', 'Average']))
    if k == 'TimePower':
        src = S(k, source=src)
    elif k == 'FiltOctave':
        src = S(k, source=src, band=100.0)
    elif k == 'RFFT':
        src = S(k, source=src, block_size=8)
    elif k == 'Average':
        src = S(k, source=src, num_per_average=4)
    spec = S('Cache', source=src)
    patches = []
    if k == 'FiltOctave':
        patches += [P_(['source', 'band'], b) for b in (100.0, 125.0, 60.0)] + [P_(['source', 'order'], o) for o in (2, 3)]
    if k == 'RFFT':
        patches += [P_(['source', 'block_size'], b) for b in (8, 4)] + [P_(['source', 'window'], w) for w in ('Hanning', 'Rectangular')]
    if k == 'Average':
        patches += [P_(['source', 'num_per_average'], b) for b in (1, 4, 100)]
    inner = ['source', 'source'] if k != 'none' else ['source']
    for seed in (1, 2):
        patches.append(P_([*inner, 'source'], S('TimeSamples', data={'arr': 'normal', 'shape': [17, 2], 'seed': seed}, sample_freq=1000.0)))
    for f in ('@a.h5', '@b.h5'):
        patches.append(P_([*inner, 'source'], S('TimeSamples', file=f)))
    read = st.fixed_dictionaries({'num': st.sampled_from([1, 2, 3, 5, 7, 16, 64, 500]), 'blocks': st.one_of(st.none(), st.none(), st.integers(0, 6)), 'pair': st.one_of(st.none(), st.none(), st.none(), st.tuples(st.booleans(), st.lists(st.integers(0, 1), min_size=2, max_size=20)))})
    return draw(hist(st.just(spec), st.sampled_from(patches), read))


def read_cache(o, how):
    if how.get('pair'):
        same, order = how['pair']
        g = [o.result(how['num']), (o if same else ac.Cache(source=o.source)).result(how['num'])]
        outs = [[], []]
        for i in [*order, *[0] * 200, *[1] * 200]:
            b = next(g[i], None)
            if b is not None:
                outs[i].append(np.array(b))
        return [np.concatenate(x) for x in outs if x]
    out = []
    g = o.result(how['num'])
    while how['blocks'] is None or len(out) < how['blocks']:
        b = next(g, None)
        if b is None:
            break
        out.append(np.array(b))
    g.close()
    return [np.concatenate(out)] if out else []


@subcheck(P, 'timecache', timecache(), quick=350, shards=3, rule='several reads with an active cache')
def timecache_(d, ctx):
    run_history(d, ctx, read_cache)


# ---------------------------------------------------------------------------------- spectra
@st.composite
def spectra(draw):
    spec = S('PowerSpectra', source=S('Faulty', source=draw(tsource)), block_size=128, window=draw(st.sampled_from(['Rectangular', 'Hanning'])), overlap='None', cached=draw(st.booleans()), precision=draw(st.sampled_from(['complex128', 'complex64'])))
    patches = [P_(['window'], w) for w in ('Rectangular', 'Hanning', 'Bartlett')] + [P_(['overlap'], w) for w in ('None', '50%')] + [P_(['block_size'], 128), P_(['block_size'], 256), P_(['precision'], 'complex64'), P_(['precision'], 'complex128'), P_(['cached'], True), P_(['cached'], False)]
    patches += [P_(['source', 'source'], S('TimeSamples', data={'arr': 'normal', 'shape': [300, 2], 'seed': s}, sample_freq=1000.0)) for s in (1, 2)]
    patches += [P_(['source', 'source'], S('TimeSamples', file=f)) for f in ('@a.h5', '@b.h5')]
    patches += [P_(['source', 'source'], S('TimeSamples', data={'arr': 'zeros', 'shape': [300, 2]}, sample_freq=1000.0))]
    read = st.lists(st.sampled_from(['csm', 'eva', 'eve', 'synth']), min_size=1, max_size=3)
    return draw(hist(st.just(spec), st.sampled_from(patches), read))


def read_spectra(o, how):
    out = []
    for h in how:
        if h == 'synth':
            out.append(np.array(o.synthetic_ev(200.0, 1)))
        elif h == 'eve':  # eigenvectors of equal eigenvalues are not unique
            e, w = np.array(o.eve[:]), np.array(o.eva[:])
            out.append(np.einsum('fij,fj,fkj->fik', e, w, e.conj()))
            out.append(np.einsum('fij,fik->fjk', e.conj(), e))
        else:
            out.append(np.array(getattr(o, h)[:]))
    return out


@subcheck(P, 'spectra', spectra(), quick=250, shards=3, rule='several reads with an active cache')
def spectra_(d, ctx):
    run_history(d, ctx, read_spectra)


# ---------------------------------------------------------------------------------- beamformers
BF = ['BeamformerBase', 'BeamformerFunctional', 'BeamformerCapon', 'BeamformerEig', 'BeamformerMusic', 'BeamformerDamas', 'BeamformerClean', 'BeamformerCleansc', 'BeamformerDamasPlus', 'BeamformerOrth', 'BeamformerCMF', 'BeamformerSODIX', 'BeamformerGIB', 'BeamformerGridlessOrth']


@st.composite
def beam(draw):
    k = draw(st.sampled_from(BF))
    grid = draw(zoo.rect_grid(maxn=2 if k in ('BeamformerSODIX', 'BeamformerGIB', 'BeamformerCMF') else 3))
    if k == 'BeamformerSODIX':
        grid = S('RectGrid', x_min=-0.5, x_max=0.0, y_min=0.0, y_max=0.0, z=1.0, increment=0.5)
    steer = S('SteeringVector', grid=grid, mics=S('MicGeom', pos_total={'arr': 'uniform', 'shape': [3, 3], 'seed': draw(zoo.seeds)}), steer_type=draw(st.sampled_from(['true level', 'true location', 'classic', 'inverse'])))
    fd = S('PowerSpectra', source=S('Faulty', source=draw(tsource)), block_size=128, window='Hanning', overlap='None', cached=draw(st.booleans()))
    a = dict(freq_data=fd, steer=steer, cached=draw(st.booleans()))
    patches = [P_(['cached'], True), P_(['cached'], False), P_(['freq_data', 'window'], 'Hanning'), P_(['freq_data', 'window'], 'Rectangular'), P_(['freq_data', 'block_size'], 256), P_(['freq_data', 'block_size'], 128),
               P_(['steer', 'grid', 'z'], 1.5), P_(['steer', 'grid', 'z'], 2.0), P_(['steer', 'steer_type'], 'classic'), P_(['steer', 'steer_type'], 'true level'), P_(['steer', 'ref'], 1.0), P_(['steer', 'env', 'c'], 300.0), P_(['precision'], 'float32'), P_(['precision'], 'float64')]
    patches += [P_(['freq_data', 'source', 'source'], S('TimeSamples', file=f)) for f in ('@a.h5', '@b.h5')]
    steer['a']['env'] = S('Environment', c=343.0)
    # n and eva_list override each other: one of them per history
    ncomp = ([P_(['n'], 1), P_(['n'], 2)], [P_(['eva_list'], {'lit': v, 'dtype': 'int64'}) for v in ([0], [-1], [-1, -2])])[draw(st.integers(0, 1))] if k in ('BeamformerOrth', 'BeamformerGridlessOrth') else None
    own = {
        'BeamformerBase': [P_(['r_diag'], True), P_(['r_diag'], False), P_(['r_diag_norm'], 1.3)],
        'BeamformerFunctional': [P_(['gamma'], 2.0), P_(['gamma'], 1.0)],
        'BeamformerEig': [P_(['n'], -1), P_(['n'], 1), P_(['n'], 0), P_(['r_diag'], False)],
        'BeamformerMusic': [P_(['n'], 2), P_(['n'], 1)],
        'BeamformerDamas': [P_(['n_iter'], 5), P_(['n_iter'], 9), P_(['damp'], 0.7), P_(['calcmode'], 'single'), P_(['psf_precision'], 'float32')],
        'BeamformerDamasPlus': [P_(['alpha'], 0.1), P_(['method'], 'OMPCV') if False else P_(['method'], 'NNLS'), P_(['method'], 'LP'), P_(['calcmode'], 'block')],
        'BeamformerClean': [P_(['n_iter'], 3), P_(['damp'], 0.4), P_(['calcmode'], 'full')],
        'BeamformerCleansc': [P_(['n'], 2), P_(['damp'], 0.9), P_(['stopn'], 1)],
        'BeamformerOrth': ncomp,
        'BeamformerCMF': [P_(['method'], 'NNLS'), P_(['alpha'], 0.5), P_(['r_diag'], False)],
        'BeamformerSODIX': [P_(['n_iter'], 3) if False else P_(['max_iter'], 3), P_(['alpha'], 0.1)],
        'BeamformerGIB': [P_(['n'], 2), P_(['m'], 1), P_(['pnorm'], 1.1)],
        'BeamformerGridlessOrth': ncomp,
    }.get(k, [])
    if k == 'BeamformerDamas':
        a['n_iter'] = 5
    if k == 'BeamformerDamasPlus':
        a['method'] = 'NNLS'
    if k == 'BeamformerCMF':
        a['method'] = 'NNLS'
    if k == 'BeamformerSODIX':
        a['max_iter'] = 2
    if k == 'BeamformerMusic':
        a['n'] = 1
    if k == 'BeamformerGridlessOrth':
        a.update(bounds=[{'tup': [-0.5, 0.5]}, {'tup': [-0.5, 0.5]}, {'tup': [0.9, 1.1]}], shgo={'n': 20, 'iters': 1})
    spec = S(k, **a)
    ind = st.one_of(st.integers(1, 20), st.integers(1, 20), st.tuples(st.integers(1, 20), st.integers(1, 4)).map(lambda t: [t[0], t[0] + t[1]]))
    if k in ('BeamformerSODIX', 'BeamformerGIB', 'BeamformerGridlessOrth'):
        ind = st.integers(5, 7)
    read = st.lists(ind, min_size=1, max_size=3)
    return draw(hist(st.just(spec), st.sampled_from(patches + own * 2), read))


def read_beam(o, how):
    out = []
    r = o.result
    for h in how:
        out.append(np.array(r[h] if isinstance(h, int) else r[h[0]:h[1]]))
    return out


@subcheck(P, 'beamformers', beam(), quick=200, shards=4, rule='several reads with an active cache')
def beam_(d, ctx):
    run_history(d, ctx, read_beam, keeps_node=True)


# ---------------------------------------------------------------------------------- point spread functions
@st.composite
def psf(draw):
    steer = S('SteeringVector', grid=draw(zoo.rect_grid(maxn=3)), mics=S('MicGeom', pos_total={'arr': 'uniform', 'shape': [3, 4], 'seed': draw(zoo.seeds)}), env=S('Environment', c=343.0))
    gs = 1
    spec = S('PointSpreadFunction', steer=steer, freq=500.0, calcmode=draw(st.sampled_from(['single', 'block', 'full'])))
    g2 = draw(zoo.rect_grid(maxn=2))
    n = size(steer['a']['grid'])
    m = min(n, size(g2))
    idx = draw(st.lists(st.lists(st.integers(0, m - 1), max_size=3), min_size=2, max_size=3))
    patches = [P_(['freq'], f) for f in (500.0, 500.004, 499.996, 1000.0)] + [P_(['calcmode'], c) for c in ('single', 'block', 'full')] + [P_(['grid_indices'], {'lit': i, 'dtype': 'int64'}) for i in idx] * 2 + [P_(['precision'], 'float32'), P_(['precision'], 'float64'), P_(['steer', 'grid'], g2), P_(['steer', 'grid', 'z'], 1.1), P_(['steer', 'steer_type'], 'classic'), P_(['steer', 'env', 'c'], 300.0)]
    return draw(hist(st.just(spec), st.sampled_from(patches), st.just(0)))


def size(g):
    a = g['a']
    return (round((a['x_max'] - a['x_min']) / a['increment']) + 1) * (round((a['y_max'] - a['y_min']) / a['increment']) + 1)


@subcheck(P, 'psf', psf(), quick=250, shards=2, rule='several reads with an active cache')
def psf_(d, ctx):
    run_history(d, ctx, lambda o, how: [np.array(o.psf)])


# ---------------------------------------------------------------------------------- killed processes
KINDS = {'timecache': (timecache, read_cache), 'spectra': (spectra, read_spectra), 'beamformers': (beam, read_beam), 'psf': (psf, lambda o, how: [np.array(o.psf)])}


class Scratch:
    def __init__(self, tmp):
        self.tmp = tmp

    def path(self, name):
        return os.path.join(self.tmp, name)


def unattended(d, tmp, arm):
    """The history without any comparison, in a process that gets killed."""
    ctx = Scratch(tmp)
    ac.config.h5library = d['lib']
    ac.config.cache_dir = ctx.path('cache0')
    read = KINDS[d['kind']][1]
    spec, live = d['spec'], zoo.build(locate(d['spec'], ctx))
    arm()
    for op, arg in d['ops']:
        if op == 'mode':
            ac.config.global_caching = arg
        elif op == 'set':
            spec = zoo.patched(spec, arg['path'], arg['value'])
            zoo.apply(live, arg['path'], locate(arg['value'], ctx))
        elif op == 'new':
            live = zoo.build(locate(spec, ctx))
        elif op == 'read':
            read(live, arg)


@st.composite
def killed(draw):
    kind = draw(st.sampled_from(['timecache', 'timecache', 'spectra', 'beamformers', 'psf']))
    d = draw(KINDS[kind][0]())
    d['ops'] = [o for o in d['ops'] if o[0] != 'poison' and not (o[0] == 'restart' and o[1][0] == 'lib')]
    return d | {'kind': kind, 'kill': draw(st.one_of(st.integers(0, 60), st.integers(0, 300), st.integers(0, 3000)))}


_zygote = []


@subcheck(P, 'killed', killed(), quick=150, shards=2, rule='the first process is killed before its end, with data in the cache')
def killed_(d, ctx):
    """A process that shared the cache directory was killed at any source line of the caching modules."""
    if not _zygote:
        _zygote.append(zygote.Zygote())
    for k in ('@a.h5', '@b.h5', '@sub.h5'):
        locate(k, ctx)
    sig, msg = _zygote[0].run('props.c05_cache', 'unattended', [d, ctx.tmp], d['kill'], ctx.path('report'))
    ctx.check(sig == 9, f'first process: {msg}')
    used = False
    for f in h5files(ctx.path('cache0')):
        try:
            with h5py.File(f, 'r', locking=False) as h:
                used |= bool(len(h))
        except OSError:  # never written to the disk completely: this file must be removed by hand
            ctx.label('no HDF5 file left')
            return
    run_history(d, ctx, KINDS[d['kind']][1], keeps_node=d['kind'] == 'beamformers')
    ctx.label(d['kind'])
    ctx.interesting(used)


@st.composite
def stopped(draw):
    kind = draw(st.sampled_from(['timecache', 'spectra', 'beamformers', 'psf']))
    d = draw(KINDS[kind][0]())
    d['ops'] = [o for o in d['ops'] if o[0] != 'poison']
    for _ in range(draw(st.integers(1, 2))):
        read = draw(st.sampled_from([o[1] for o in d['ops'] if o[0] == 'read']))
        i = draw(st.integers(1, len(d['ops']) - 1))
        d['ops'].insert(i, ['break', [draw(st.integers(0, 3)), read]])
    return d | {'kind': kind, 'stop': draw(st.one_of(st.integers(0, 60), st.integers(0, 300), st.integers(0, 3000)))}


@subcheck(P, 'stopped', stopped(), quick=250, shards=2, rule='several reads with an active cache')
def stopped_(d, ctx):
    """Reads are interrupted (as by Ctrl-C) at any source line of the caching modules."""
    run_history(d, ctx, KINDS[d['kind']][1], keeps_node=d['kind'] == 'beamformers')
    ctx.label(d['kind'])
