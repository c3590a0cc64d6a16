"""Writes known_findings.json: the recorded findings with their witness inputs, and the repairs committed in /repo."""

import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '4558f54'

# subject of the repair (after "fix: ") -> property
FIXED = {
    'PolySector applies abs_tol': 'C19',
    'digest after emptying a list of sources': 'C04',
    'digest of MaskedTimeSamples ignored the size': 'C03',
    'SampleSplitter finds consumers that read through': 'C08',
    'IntegratorSectorTime clip does not depend': 'C01',
    'digest of default float': 'C04',
    'indices of PowerSpectraImport': 'C04',
    'digests of line, moving': 'C03',
    'GenericSignalGenerator.digest follows num_samples': 'C04',
    'SteeringVector.inv_digest does not': 'C04',
    'SteeringVector refuses reference': 'C26',
    'LineSource refuses source_strength': 'C26',
    'SpatialInterpolator refuses a source': 'C26',
    'time domain beamformers refuse': 'C26',
    'default sector of': 'C28',
    'MetricEvaluator does': 'C28',
    'SpatialInterpolator with method sinc': 'C25',
    'IDW interpolation': 'C25',
    'virtual microphones of ring': 'C25',
    'digest of SpatialInter': 'C03',
    'SpatialInterpolator follows': 'C04',
    'SpatialInterpolatorRotation uses': 'C25',
    'Trigger warns': 'C25',
    'locations of rect': 'C25',
    'AngleTracker.rpm': 'C25',
    'AngleTracker counts': 'C25',
    'BeamformerBase.integrate without prior': 'C23',
    'RFFT.result yields no zero': 'C01', 'FilterBank.result handles': 'C01', 'Mixer and SourceMixer no longer': 'C02', 'TimeConvolve convolves': 'C13',
    'TimeReverse keeps': 'C09', 'SampleSplitter buffers': 'C08', 'dipole and line sources yield': 'C01', 'TimeConvolve reports': 'C01', 'Average.num_samples': 'C01',
    "spatial weighting 'power'": 'C24', 'time beamformers apply': 'C02', 'BeamformerTime stops': 'C24', 'SteeringVector with reference': 'C20',
    'the last frequency of a lazy': 'C23', 'SteeringVector.transfer': 'C20', 'convective amplification for': 'C24', 'BeamformerTimeTraj uses': 'C24',
    'PointSourceConvolve reports': 'C01', 'BeamformerTimeTraj yields': 'C01', 'BeamformerTimeTraj delivers': 'C01', 'GeneralFlowEnvironment': 'C04',
    'Trajectory.traj': 'C17', 'digest tells apart': 'C03', 'RectGrid.index and': 'C18', 'LineGrid with': 'C18', 'MergeGrid names': 'C18', 'sectors fall': 'C19',
    'in_hull': 'C19', 'RectGrid.indices': 'C18', 'digest of TimeSamples': 'C03', 'TimeSamples loads': 'C04', 'digests of MaskedTimeSamples': 'C03',
    'number of masked': 'C06', 'WriteWAV': 'C07', 'WriteH5': 'C07', 'export_mpos': 'C07', 'H5FileTables': 'C07', 'PointSpreadFunction calculates': 'C20',
    'PointSpreadFunction marks': 'C05', 'PointSpreadFunction with default': 'C04', 'PSFs for frequencies': 'C05', 'PointSpreadFunction reads': 'C05',
    'SamplesBuffer': 'C08', 'SampleSplitter detects': 'C08', 'objects can be removed': 'C08', 'buffer_size': 'C08', 'SampleSplitter loses': 'C08',
    'objects can switch': 'C05', 'closed cache': 'C05', 'cache file manager': 'C05', 'Cache can be': 'C05', 'PowerSpectra does not write': 'C05',
    'cache files opened': 'C05', 'eec968b': 'C04', 'derived sizes': 'C04', 'PowerSpectra frequency indices': 'C04', 'BeamformerGIB': 'C22',
    'adaptive grid positions': 'C05', 'OctaveFilterBank coefficients': 'C04', 'TimeConvolve does not change': 'C02', 'RFFT announces': 'C15',
    'CrossPowerSpectra': 'C15', 'PowerSpectraImport': 'C03', 'CsmAIAABenchmark': 'C28', 'PowerSpectra.freq_range': 'C14', 'power spectral density': 'C15',
    'PointSource does not read': 'C11', 'line sources do not': 'C11', 'UncorrelatedNoiseSource uses': 'C11', 'emission times of': 'C12', 'start time of moving': 'C12', 'shape of SteeringVector.rm': 'C20',
    'integrate for beamformers with': 'C23', 'BeamformerGridlessOrth positions': 'C21', 'size of BeamformerGridlessOrth': 'C21', 'BeamformerFunctional with rank': 'C21',
    'repeated calculation': 'C23', 'number of eigenvalues follows': 'C04', 'results of beamformers can': 'C23', 'CLEAN-SC': 'C22', 'BeamformerDamasPlus digest': 'C04', 'IntegratorSectorTime.num_channels': 'C04', 'Cache works when several': 'C05', 'SoundDeviceSamplesGenerator.sample_freq': 'C04',
}


def mic(*p):
    return {'k': 'MicGeom', 'a': {'pos_total': {'lit': [list(v) for v in zip(*p)]}}}


def moving(k, points, mics, n=30, **a):
    return {'spec': {'k': k, 'a': {'signal': {'k': 'WNoiseGenerator', 'a': {'sample_freq': 100.0, 'num_samples': n, 'rms': 1.0, 'seed': 1}}, 'mics': mics, 'env': {'k': 'Environment', 'a': {'c': 300.0}},
                                  'up': 16, 'start': 0.0, 'start_t': 0.02, 'trajectory': {'k': 'Trajectory', 'a': {'points': {'points': points}}}, **a}}, 'num': 7, 'M': 0.5}


SCENE = {'nm': 5, 'seed': 3, 'type': 'true level', 'f': [1000.0], 'own': False, 'aperture': 1.0, 'ref': 0.0, 'r_diag': False, 'scale': 1.0, 'grid': {'n': 3, 'seed': 1, 'size': 0.5, 'z': 0.3}, 'q': [1.0, 0.0, 0.5], 'noise': 0}

FINDINGS = [
    ('C03', 'h5_first_row', {'data': [[1.0], [2.0]]},
     'the digest of TimeSamples and MaskedTimeSamples with an HDF5 file takes only the sum over the first sample of all channels from the contents, so files of the same name, size and first sample have the same digest; reading the whole file for it would be too slow for measurements'),
    ('C28', 'cylinder_round_trip', {'n': 1, 'seed': 1, 'Q': None, 'scale': 1.0},
     'cylToCart is not the inverse of cartToCyl (it swaps x and y); a stable test expects that (xfail, strict)'),
    ('C14', 'num_blocks',
     {'bs': 128, 'overlap': 'None', 'n': 200, 'c': 1, 'kind': 'normal', 'seed': 0, 'scale': 1.0, 'fs': 128.0, 'window': 'Rectangular', 'precision': 'complex128', 'chain': False},
     'PowerSpectra.num_blocks counts left-over samples as a fraction of a block (1.5625 instead of 1 for 200 samples and block size 128), so the csm is too small by that factor; a stable doctest pins the value'),
    ('C12', 'resting', moving('MovingLineSource', [[-1.0, [0.0, 0.0, 3.0]], [1.0, [0.0, 0.0, 3.0]]], mic([1.0, 0, 0]), direction={'tup': [1.0, 0.0, 0.0]}, length=1.0, num_sources=1, source_strength={'lit': [1.0]}),
     'MovingLineSource is one sample ahead of LineSource and MovingPointSource (the time is advanced before the first sample); the snapshot tests of the generators pin it'),
    ('C12', 'convective_amplification', moving('MovingPointSource', [[-1.0, [-150.0, 0.0, 3.0]], [1.0, [150.0, 0.0, 3.0]]], mic([10.0, 0, 0]), conv_amp=True),
     'convective amplification of moving sources uses the radial Mach number with respect to the origin instead of the microphone, and with the opposite sign (receding sources are amplified); for dipoles it has no effect, for line sources it affects only the last monopole; the snapshot tests of the generators pin it'),
    ('C12', 'emission_positions', moving('MovingPointSourceDipole', [[-1.0, [-150.0, 0.0, 3.0]], [1.0, [150.0, 0.0, 3.0]]], mic([10.0, 0, 0], [-10.0, 2, 0]), direction={'tup': [0.0, 0.0, 1.0]}),
     'MovingPointSourceDipole and MovingLineSource compute the distances to all microphones from the source position at the emission time for the first microphone; the snapshot tests of the generators pin it'),
    ('C22', 'sodix_first_frequency', dict(SCENE, f=[1000.0, 1200.0]),
     'BeamformerSODIX never calculates the first frequency of freq_data (its result is zero); starting there would change the stored results of all other frequencies'),
    ('C22', 'gib_overdetermined', dict(SCENE, method='InverseIRLS', n=1),
     'BeamformerGIB with method InverseIRLS fails (shapes not aligned) if there are fewer grid points than microphones'),
    ('C22', 'gib_regularisation', dict(SCENE, eps=0.05, beta=0.9, pnorm=1.0),
     'BeamformerGIB with method Suzuki rounds the regularisation parameter down to an integer (0 for small problems); the stored results of the beamformer tests depend on it'),
    ('C24', 'clean_autopower', {'steer': {'k': 'SteeringVector', 'a': {'grid': {'k': 'ImportGrid', 'a': {'pos': {'lit': [[0.098], [0.43], [1.006]]}}}, 'mics': {'k': 'MicGeom', 'a': {'pos_total': {'arr': 'uniform', 'shape': [3, 3], 'seed': 0, 'scale': 1.0}}}, 'env': {'k': 'Environment', 'a': {'c': 343.0}}, 'steer_type': 'true level'}}, 'n': 800, 'freq': 300.0, 'damp': 0.6, 'n_iter': 20},
     'BeamformerCleantSq with r_diag subtracts only the auto power of the last step at a point instead of that of all steps, so that the auto power is hardly removed; the snapshot tests of the generators pin it'),
    ('C24', 'convective_amplification', {'vx': 100.0},
     'the trajectory beamformers compensate convective amplification with the opposite sign (approaching sources as if receding), consistently with the moving sources; the snapshot tests of the generators pin it'),
]


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x00%s%x00%b%x01', f'{BASE}..HEAD'], text=True)
    fixed = []
    for e in filter(None, (x.strip() for x in log.split('\x01'))):
        h, s, b = e.split('\x00')
        assert s.startswith('fix: '), s
        p = [v for k, v in FIXED.items() if s[5:].startswith(k)]
        assert len(p) == 1, (s, p)
        fixed.append(f'fixed: property={p[0]} {h} {s[5:]}')
    out = {'findings': [dict(property=p, sub=s, case=c, what=w) for p, s, c, w in FINDINGS], 'fixed': fixed}
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
