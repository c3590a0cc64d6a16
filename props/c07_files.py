"""C07 files written by the library read back as the same data."""

import glob
import os
import wave
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

import h5py
import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo
from vlib.core import REPO, subcheck
from vlib.zoo import fl

P = 'C07'
LIBS = ['tables', 'h5py']
lib = st.sampled_from(LIBS)


def use(name):
    ac.config.h5library = name if (name == 'h5py' or ac.config.have_tables) else 'h5py'


meta_value = st.one_of(
    st.text('abcXYZ 019_-', min_size=1, max_size=12),
    st.integers(-1000, 1000),
    fl(-10, 10),
    st.lists(fl(-10, 10), min_size=1, max_size=5),
    st.lists(st.integers(-9, 9), min_size=1, max_size=4),
)
meta = st.dictionaries(st.sampled_from(['key', 'temperature', 'operator', 'a_b', 'serial']), meta_value, max_size=3)


@st.composite
def h5(draw):
    n, c = draw(st.one_of(st.integers(1, 60), st.sampled_from([4095, 4096, 4097, 9000]))), draw(st.integers(1, 4))
    how = draw(st.sampled_from(['save', 'result', 'result', 'stop', 'abandon']))
    num = draw(st.one_of(st.integers(1, 64), st.integers(1, n + 3)))
    if n > 100:
        num = max(num, 600)
    return {
        'data': draw(zoo.arrays([n, c], kinds=('normal', 'ramp', 'uniform'), scales=(1.0, 1e-6, 1e5))), 'fs': draw(st.sampled_from(zoo.FS)),
        'mid': draw(st.sampled_from([None, None, 'TimePower', 'ChannelMixer', 'MaskedTimeOut'])),
        'precision': draw(st.sampled_from(['float32', 'float64', None])), 'write': draw(lib), 'read': draw(lib), 'how': how, 'num': num,
        'limit': draw(st.one_of(st.just(-1), st.integers(1, n + 5), st.integers(1, n))), 'blocks': draw(st.integers(1, 6)),
        'meta': draw(meta), 'twice': draw(st.booleans()), 'rnum': draw(st.integers(1, n + 3)) if n < 100 else 1000,
    }


@subcheck(P, 'h5', h5(), quick=900, shards=2, rule='more than one block, a limit, metadata or 64 bit')
def h5_(d, ctx):
    """WriteH5 -> TimeSamples."""
    x = zoo.arr(d['data'])
    src = ac.TimeSamples(data=x, sample_freq=d['fs'])
    if d['mid'] == 'TimePower':
        src, x = ac.TimePower(source=src), x**2
    elif d['mid'] == 'ChannelMixer':
        src, x = ac.ChannelMixer(source=src), x.sum(1, keepdims=True)
    elif d['mid'] == 'MaskedTimeOut':
        src, x = ac.MaskedTimeOut(source=src, start=len(x) // 3), x[len(x) // 3:]
    n, c = x.shape
    use(d['write'])
    file = ctx.path('out.h5')
    kw = {} if d['precision'] is None else {'precision': d['precision']}
    w = ac.WriteH5(source=src, file=file, metadata=dict(d['meta']), **kw)
    limit = d['limit'] if d['how'] != 'save' else -1
    expect = n
    if d['twice']:
        w.save()  # the second run replaces the file
    if d['how'] == 'save':
        w.save()
    else:
        w.num_samples_write = limit
        if limit > 0:
            expect = min(n, limit)
        got, i = [], 0
        for b in w.result(d['num']):
            got.append(np.array(b))
            i += 1
            if i == d['blocks'] and d['how'] == 'stop':
                w.write_flag = False
            if i == d['blocks'] and d['how'] == 'abandon':
                break
        if d['how'] in ('stop', 'abandon'):
            expect = min(expect, d['blocks'] * d['num'])
        b = None
        y = np.concatenate(got)
        ctx.check(len(y) >= expect, lambda: f'WriteH5.result passed on {len(y)} samples, {expect} were to be written')
        ctx.close(y, x[:len(y)], 'samples passed through WriteH5.result', rtol=1e-12)
    use(d['read'])
    with h5py.File(file, 'r') as f:
        ctx.equal(str(f['time_data'].dtype), d['precision'] or 'float32', 'precision of the written data')
        ctx.shape(f['time_data'], (expect, c), 'written data')
    r = ac.TimeSamples(file=file)
    ctx.equal((r.num_samples, r.num_channels, r.sample_freq), (expect, c, d['fs']), 'samples, channels, sampling frequency read back')
    back = zoo.full(r, d['rnum'])
    ref = x[:expect].astype(d['precision'] or 'float32')
    ctx.close(back, ref, 'data read back', rtol=1e-12 if d['precision'] == 'float64' else 1e-7)
    ctx.equal(sorted(k for k in r.metadata if k not in ('CLASS', 'TITLE', 'VERSION')), sorted(d['meta']), 'metadata keys')
    for k, v in d['meta'].items():
        node = r.metadata[k]
        val = node[()] if isinstance(node, h5py.Dataset) else node.read()
        if isinstance(v, str):
            val = np.asarray(val).item()
            ctx.equal(val.decode() if isinstance(val, bytes) else val, v, f'metadata {k}')
        else:
            ctx.same(np.asarray(val, float), np.asarray(v, float), f'metadata {k}')
    r.h5f.close()
    ctx.label(d['how'], f"{d['write']}->{d['read']}")
    ctx.interesting(d['how'] != 'save' or bool(d['meta']) or d['precision'] == 'float64' or n > 4096)


@st.composite
def h5auto(draw):
    return {'n': draw(st.integers(1, 20)), 'lib': draw(lib), 'how': draw(st.sampled_from(['save', 'result']))}


@subcheck(P, 'h5-default-name', h5auto(), quick=20, rule='every case')
def h5auto_(d, ctx):
    """Without a file name the file goes to the data directory under the name the object reports."""
    use(d['lib'])
    old = ac.config.td_dir
    os.makedirs(ctx.path('td'))
    ac.config.td_dir = ctx.path('td')
    try:
        x = np.arange(2.0 * d['n']).reshape(-1, 2)
        w = ac.WriteH5(source=ac.TimeSamples(data=x, sample_freq=10.0))
        w.save() if d['how'] == 'save' else zoo.full(w, 3)
        ctx.equal([os.path.join(ctx.path('td'), f) for f in os.listdir(ctx.path('td'))], [str(w.file)], 'files in the data directory')
        with h5py.File(w.file, 'r') as f:
            ctx.same(f['time_data'][:], x.astype('float32'), 'written data')
    finally:
        ac.config.td_dir = old
    ctx.interesting()


@st.composite
def wav(draw):
    n, c = draw(st.one_of(st.integers(1, 50), st.sampled_from([1023, 1024, 1025, 3000]))), draw(st.integers(1, 5))
    return {
        'data': draw(zoo.arrays([n, c], kinds=('normal', 'ramp', 'int', 'impulse', 'zeros'), scales=(1.0, 1e-6, 1e5))), 'fs': draw(st.sampled_from([1.0, 8000.0, 44100.0, 51200.0, 96000.0])),
        'channels': draw(st.lists(st.integers(0, c - 1), min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=4)), 'named': draw(st.integers(0, 3)) > 0,
    }


@subcheck(P, 'wav', wav(), quick=500, rule='more than one channel or a selection of channels')
def wav_(d, ctx):
    x = zoo.arr(d['data'])
    os.chdir(ctx.tmp)
    w = ac.WriteWAV(source=ac.TimeSamples(data=x, sample_freq=d['fs']), channels=d['channels'])
    if d['named']:
        w.file = ctx.path('o.wav')
    if not d['channels']:
        try:
            w.save()
        except ValueError:
            return
        ctx.fail('WriteWAV without channels does not raise')
    w.save()
    files = glob.glob(ctx.path('*'))
    ctx.equal(len(files), 1, 'number of files written')
    if d['named']:
        ctx.equal(os.path.basename(files[0]), 'o.wav', 'name of the file')
    with wave.open(files[0]) as f:
        ctx.equal((f.getnchannels(), f.getsampwidth(), f.getframerate(), f.getnframes()), (len(d['channels']), 2, d['fs'], len(x)), 'channels, sample width, frame rate, frames')
        y = np.frombuffer(f.readframes(len(x) + 5), dtype='<i2').reshape(-1, len(d['channels'])).astype(float)
    sel = x[:, d['channels']]
    mx = np.abs(sel).max()
    if mx == 0:
        ctx.check(not y.any(), 'silence is written as something else')
        return
    # one common factor: the largest sample is at 0.9 of the full scale
    ref = sel / mx * 0.9 * 2**15
    ctx.check(np.abs(y - ref).max() <= 1.001, lambda: f'samples deviate by {np.abs(y - ref).max():.2f} LSB from the scaled signal')
    ctx.interesting(len(d['channels']) > 1 or x.shape[1] > 1)


names = st.sampled_from(['array', 'my array', 'a&b', 'x<y>', 'q"uote', "it's", 'Grüße', 'name.with.dots', 'a' * 60])
coord = st.one_of(fl(-5, 5), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.0, -0.0, 1e-300, 1 / 3]))


@st.composite
def micxml(draw):
    n = draw(st.integers(1, 8))
    return {'pos': draw(st.lists(st.lists(coord, min_size=n, max_size=n), min_size=3, max_size=3)), 'inv': draw(st.lists(st.integers(0, n - 1), max_size=n - 1, unique=True)), 'name': draw(names)}


@subcheck(P, 'micxml', micxml(), quick=500, rule='at least two microphones')
def micxml_(d, ctx):
    pos = np.array(d['pos'], float)
    m = ac.MicGeom(pos_total=pos, invalid_channels=d['inv'])
    file = ctx.path(d['name'] + '.xml')
    m.export_mpos(file)
    valid = [i for i in range(pos.shape[1]) if i not in d['inv']]
    r = ac.MicGeom(file=file)
    ctx.same(r.pos_total, pos[:, valid], 'positions read back')
    ctx.equal(r.num_mics, len(valid), 'number of microphones read back')
    r.invalid_channels = [0] if len(valid) > 1 else []
    ctx.same(r.pos, pos[:, valid][:, 1 if len(valid) > 1 else 0:], 'valid positions of the imported geometry')
    # loading another file replaces the positions
    m.invalid_channels = []
    m.export_mpos(ctx.path('second.xml'))
    r.file = ctx.path('second.xml')
    ctx.same(r.pos_total, pos, 'positions after loading a second file')
    ctx.interesting(len(valid) > 1)


@st.composite
def otherxml(draw):
    n = draw(st.integers(1, 8))
    k = draw(st.sampled_from(['calib', 'grid']))
    return {'k': k, 'vals': draw(st.lists(st.lists(coord, min_size=n, max_size=n), min_size=3, max_size=3)), 'names': draw(st.lists(st.sampled_from(['', 'wing', 'a & b', 'left', 'right']), min_size=n, max_size=n)), 'second': draw(st.integers(1, 8))}


@subcheck(P, 'otherxml', otherxml(), quick=400, rule='more than one entry')
def otherxml_(d, ctx):
    """Calibration and grid files in their documented format."""
    v = np.array(d['vals'], float)
    n = v.shape[1]

    def write(name, idx):
        with open(ctx.path(name), 'w', encoding='utf-8') as f:
            f.write('<?xml version="1.0" encoding="utf-8"?>\n<Root name="x">\n')
            for i in idx:
                if d['k'] == 'calib':
                    f.write(f'<pos Name="Point {i}" factor="{float(v[0, i])!r}"/>\n')
                else:
                    f.write(f'<pos subgrid={quoteattr(d["names"][i])} x="{float(v[0, i])!r}" y="{float(v[1, i])!r}" z="{float(v[2, i])!r}"/>\n')
            f.write('</Root>\n')
        return ctx.path(name)

    o = None
    idx2 = [i % n for i in range(d['second'])][::-1]
    for name, idx in (('one.xml', range(n)), ('two.xml', idx2)):
        idx = list(idx)
        file = write(name, idx)
        if d['k'] == 'calib':
            if o is None:
                o = ac.Calib(file=file)
            o.file = file
            ctx.same(o.data, v[0, idx], 'calibration factors')
            ctx.equal(o.num_mics, len(idx), 'number of calibration factors')
        else:
            if o is None:
                o = ac.ImportGrid(file=file)
            o.file = file
            ctx.same(o.pos, v[:, idx], 'grid positions')
            ctx.equal((o.size, o.shape), (len(idx), (len(idx),)), 'grid size and shape')
            ctx.equal([str(s) for s in o.subgrids], [d['names'][i] for i in idx], 'names of the subgrids')
    ctx.label(d['k'])
    ctx.interesting(n > 1)


@st.composite
def shipped(draw):
    return {'i': draw(st.integers(0, 30)), 'inv': draw(st.lists(st.integers(0, 15), max_size=3, unique=True))}


@subcheck(P, 'shipped', shipped(), quick=120, rule='every case')
def shipped_(d, ctx):
    """The geometries that come with the package: import, re-export, import."""
    files = sorted(glob.glob(os.path.join(REPO, 'acoular', 'xml', '*.xml')))
    f = files[d['i'] % len(files)]
    els = [e for e in ET.parse(f).getroot().iter('pos')]
    if els and 'factor' in els[0].attrib:
        c = ac.Calib(file=f)
        ctx.same(c.data, np.array([float(e.get('factor')) for e in els]), f'{f}: calibration')
        ctx.interesting()
        return
    ref = np.array([[float(e.get(a)) for e in els] for a in 'xyz'])
    m = ac.MicGeom(file=f)
    ctx.same(m.pos_total, ref, f'{os.path.basename(f)}: positions')
    inv = [i for i in d['inv'] if i < ref.shape[1] - 1] if ref.shape[1] > 3 else []
    m.invalid_channels = inv
    m.export_mpos(ctx.path('x.xml'))
    ctx.same(ac.MicGeom(file=ctx.path('x.xml')).pos, np.delete(ref, inv, axis=1), f'{os.path.basename(f)}: positions exported and imported')
    ctx.interesting()


# ------------------------------------------------------------------------- low level file interface
nodename = st.sampled_from(['time_data', 'a'])


@st.composite
def h5api(draw):
    ops, have = [], set()
    for i in range(draw(st.integers(1, 12))):
        k = 'create' if i == 0 else draw(st.sampled_from(['create', 'append', 'append', 'attr', 'array', 'remove', 'reopen', 'group']))
        n = draw(nodename)
        ops.append({'op': k, 'n': n, 'seed': draw(zoo.seeds), 'rows': draw(st.integers(0, 5)), 'cols': draw(st.integers(1, 3)), 'prec': draw(st.sampled_from(['float32', 'float64'])), 'key': draw(st.sampled_from(['sample_freq', 'x'])), 'val': draw(fl(-5, 5))})
        have.add(n)
    return {'ops': ops, 'write': draw(lib), 'read': draw(lib)}


@subcheck(P, 'h5api', h5api(), quick=400, rule='at least one appended array')
def h5api_(d, ctx):
    """Operation history on a data file against a dictionary, read back with either library."""
    from acoular import h5files

    use(d['write'])
    file = ctx.path('f.h5')
    f = h5files._get_h5file_class()(file, mode='w')
    model, attrs, groups = {}, {}, {}
    appended = False
    for o in d['ops']:
        n = o['n']
        x = zoo.arr({'arr': 'normal', 'shape': [o['rows'], o['cols']], 'seed': o['seed']})
        if o['op'] == 'create' and n not in model and n not in groups:
            f.create_extendable_array(n, (0, o['cols']), o['prec'])
            model[n] = np.zeros((0, o['cols']), o['prec'])
            attrs[n] = {}
        elif o['op'] == 'append' and n in model:
            x = zoo.arr({'arr': 'normal', 'shape': [o['rows'], model[n].shape[1]], 'seed': o['seed']})
            f.append_data(f.get_data_by_reference(n), x)
            model[n] = np.concatenate([model[n], x.astype(model[n].dtype)])
            appended = appended or o['rows'] > 0
        elif o['op'] == 'attr' and n in model:
            f.set_node_attribute(f.get_data_by_reference(n), o['key'], o['val'])
            attrs[n][o['key']] = o['val']
        elif o['op'] == 'remove' and n in model:
            f.remove_data(n)
            del model[n], attrs[n]
        elif o['op'] == 'group' and n not in model and n not in groups:
            f.create_new_group(n, '/') if d['write'] == 'h5py' else f.create_new_group(n)
            groups[n] = {}
        elif o['op'] == 'array' and n in groups and o['rows'] and o['key'] not in groups[n]:
            f.create_array('/' + n, o['key'], x)
            groups[n][o['key']] = x
        elif o['op'] == 'reopen':
            f.close()
            f = h5files._get_h5file_class()(file, mode='a')
    f.close()
    use(d['read'])
    f = h5files._get_h5file_class()(file)
    try:
        for n, x in model.items():
            node = f.get_data_by_reference(n)
            ctx.same(np.asarray(node[:]), x, f'data {n}')
            for k, v in attrs[n].items():
                ctx.equal(f.get_node_attribute(node, k), v, f'attribute {k} of {n}')
        ctx.equal(sorted(n for n, _ in f.get_child_nodes('/')), sorted([*model, *groups]), 'children of the root')
        for g, content in groups.items():
            t = f.node_to_dict('/' + g)
            ctx.equal(sorted(k for k in t if k not in ('TITLE', 'CLASS', 'VERSION')), sorted(content), f'content of group {g}')
            for k, x in content.items():
                ctx.same(np.asarray(t[k][:]), x, f'array {g}/{k}')
    finally:
        f.close()
    ctx.label(f"{d['write']}->{d['read']}")
    ctx.interesting(appended)


# ------------------------------------------------------------------------- AIAA benchmark files
@st.composite
def aiaa(draw):
    return {'m': draw(st.integers(1, 5)), 'n': draw(st.integers(1, 40)), 'nf': draw(st.integers(1, 6)), 'seed': draw(zoo.seeds), 'sign': draw(st.sampled_from([-1, 1])), 'fs': draw(st.sampled_from([51200.0, 1000.0])), 'lib': draw(lib), 'num': draw(st.integers(1, 50)), 'ntrig': draw(st.integers(1, 2))}


@subcheck(P, 'aiaa', aiaa(), quick=250, rule='at least two microphones')
def aiaa_(d, ctx):
    from acoular.aiaa import CsmAIAABenchmark, MicAIAABenchmark, TimeSamplesAIAABenchmark, TriggerAIAABenchmark

    use(d['lib'])
    r = np.random.RandomState(d['seed'])
    m, n, nf = d['m'], d['n'], d['nf']
    pos = r.uniform(-1, 1, (m, 3))
    x = r.standard_normal((n, m))
    trig = r.standard_normal((n, d['ntrig']))
    a = r.standard_normal((nf, m, m)) + 1j * r.standard_normal((nf, m, m))
    csm = a @ a.conj().transpose(0, 2, 1)
    freqs = np.sort(r.uniform(1, 1000, nf))
    file = ctx.path('benchmark.h5')
    with h5py.File(file, 'w') as f:
        f['MetaData/ArrayAttributes/microphonePositionsM'] = pos
        f['MetaData/ArrayAttributes'].attrs['microphoneCount'] = m
        f['MetaData'].attrs['revision'] = '2.4'
        f['CsmData/csmReal'] = csm.real.transpose(1, 2, 0)
        f['CsmData/csmImaginary'] = csm.imag.transpose(1, 2, 0)
        f['CsmData'].attrs['fftSign'] = d['sign']
        f['CsmData/binCenterFrequenciesHz'] = freqs[np.newaxis]
        f['MicrophoneData/microphoneDataPa'] = x
        f['MicrophoneData/microphoneDataPa'].attrs['sampleRateHz'] = d['fs']
        f['TachoData/tachoDataV'] = trig
        f['TachoData/tachoDataV'].attrs['sampleRateHz'] = d['fs']
    ctx.same(MicAIAABenchmark(file=file).pos, pos.T, 'microphone positions')
    for cls, y in ((TimeSamplesAIAABenchmark, x), (TriggerAIAABenchmark, trig)):
        t = cls(file=file)
        ctx.equal((t.num_samples, t.num_channels, t.sample_freq), (n, y.shape[1], d['fs']), f'{cls.__name__}: samples, channels, sampling frequency')
        ctx.same(zoo.full(t, d['num']), y, f'{cls.__name__}: data')
        ctx.check('ArrayAttributes' in t.metadata, f'{cls.__name__}: metadata not read')
        t.h5f.close()
    c = CsmAIAABenchmark(file=file)
    ctx.same(c.csm, csm.real + 1j * d['sign'] * csm.imag, 'cross spectral matrix')
    ctx.same(c.fftfreq(), freqs, 'frequencies')
    ctx.equal(int(c.num_channels), m, 'number of channels of the matrix')
    ctx.equal(list(c.indices), list(range(nf)), 'indices of the matrix')
    c.h5f.close()
    ctx.interesting(m > 1)
