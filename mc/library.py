"""Small complete simulations that together use most processing objects of the library.

SIMS: name -> {object: parameters}; `params(name)` gives the parameter file, `prepare()` writes
the calibrations they name in the scratch tree.
"""
import copy
import os

from mc.harness import main_params, scratch

N = 16
STEPS = 4


def _star(x=0.0, a=0.0, mag=6, **kw):
    return {'class': 'Source', 'polar_coordinates': [x, a], 'magnitude': mag,
            'wavelengthInNm': 750, **kw}


def _wave(amp, freq, const, typ='SIN', **kw):
    return {'class': 'WaveGenerator', 'wave_type': typ, 'amp': amp, 'freq': freq,
            'constant': const, **kw}


def _o(cls, inputs=None, sp=True, **kw):
    d = {'class': cls}
    if sp:
        d['simul_params_ref'] = 'main'
    d.update(kw)
    if inputs:
        d['inputs'] = inputs
    return d


_ATM = {'L0': [10.0, 5.0], 'heights': [0.0, 2000.0], 'Cn2': [0.6, 0.4], 'fov': 4.0}
_ATMIN = {'seeing': 'seeing.output', 'wind_speed': 'ws.output', 'wind_direction': 'wd.output'}
_FRONT = {
    's1': _star(), 'pup': _o('Pupilstop'),
    'gen': _wave([60.0, 40.0, 30.0], [100.0, 50.0, 25.0], [5.0, 7.0, 3.0]),
    'dm': _o('DM', {'in_command': 'gen.output'}, type_str='zernike', nmodes=3, height=0),
    'prop': _o('AtmoPropagation', {'common_layer_list': ['pup', 'dm.out_layer']},
               source_dict_ref=['s1']),
}
_EF = {'in_ef': 'prop.out_s1_ef'}
_CCD = {'dt': 0.001, 'bandw': 300}

SIMS = {
    'atmo': {
        's1': _star(), 's2': _star(1.0, 90.0, 7), 's3': _star(1.5, 200.0, 7, height=9000.0),
        'pup': _o('Pupilstop', mask_diam=0.9),
        'pup2': _o('Pupilstop', obs_diam=0.3),
        'seeing': _wave(0.1, 100.0, 0.8), 'ws': _wave([1.0, 2.0], [100.0, 50.0], [9.0, 21.0]),
        'wd': _wave([0.0, 0.0], [0.0, 0.0], [20.0, 110.0]),
        'atmo': _o('AtmoEvolution', _ATMIN, pixel_phasescreens=64, seed=3, **_ATM),
        'ud': _o('AtmoEvolutionUpDown', _ATMIN, pixel_phasescreens=64, seed=4,
                 extra_delta_time_down=0.001, extra_delta_time_up=0.003, **_ATM),
        'gen': _wave([60.0, 40.0, 30.0], [100.0, 50.0, 25.0], [5.0, 7.0, 3.0]),
        'dm0': _o('DM', {'in_command': 'gen.output'}, type_str='zernike', nmodes=3, height=0),
        'dm1': _o('DM', {'in_command': 'gen.output'}, type_str='zernike', nmodes=3,
                  height=2000.0, npixels=20),
        'prop': _o('AtmoPropagation',
                   {'atmo_layer_list': ['atmo.layer_list'],
                    'common_layer_list': ['pup', 'dm0.out_layer', 'dm1.out_layer:-1']},
                   source_dict_ref=['s1', 's2', 's3']),
        'up': _o('AtmoPropagation', {'atmo_layer_list': ['ud.layer_list_up'],
                                     'common_layer_list': ['pup', 'dm0.out_layer']},
                 source_dict_ref=['s1'], upwards=True),
        'down': _o('AtmoPropagation', {'atmo_layer_list': ['ud.layer_list_down'],
                                       'common_layer_list': ['pup2']},
                   source_dict_ref=['s3'], doFresnel=True, wavelengthInNm=750),
        'rnd': _o('AtmoRandomPhase', {'seeing': 'seeing.output', 'pupilstop': 'pup'},
                  source_dict_ref=['s1'], pixel_phasescreens=64, seed=5, L0=8.0),
        'comb': {'class': 'ElectricFieldCombinator',
                 'inputs': {'in_ef1': 'prop.out_s1_ef', 'in_ef2': 'prop.out_s2_ef'}},
        'refl': {'class': 'ElectricFieldReflection', 'inputs': {'in_ef': 'prop.out_s3_ef'}},
        'flat': {'class': 'PhaseFlattening', 'inputs': {'in_ef': 'comb.out_ef'}},
        'ana': _o('ModalAnalysis', {'in_ef': 'prop.out_s1_ef'}, sp=False, type_str='zernike',
                  nmodes=3, npixels=N),
        'ana2': _o('ModalAnalysis', {'in_ef_list': ['prop.out_s1_ef', 'refl.out_ef']}, sp=False,
                   type_str='zernike', nmodes=3, npixels=N, n_inputs=2),
        'psf': _o('PSF', {'in_ef': 'rnd.out_s1_ef'}, wavelengthInNm=1650, nd=2, start_time=0.002),
    },
    'focal': {
        **_FRONT,
        'psf': _o('PSF', _EF, wavelengthInNm=1650, nd=2, start_time=0.001,
                  compute_profile_metrics=True),
        'psf2': _o('PSF', {'in_ef': 'fil.out_ef'}, wavelengthInNm=1650, nd=3),
        'cpsf': _o('PsfCoronagraph', _EF, wavelengthInNm=1650, nd=2),
        'fil': _o('FocalPlaneFilter', _EF, wavelengthInNm=1650, fov=1.0),
        'lyot': _o('LyotCoronagraph', _EF, wavelengthInNm=1650, iwaInLambdaOverD=2.0),
        'vort': _o('VortexCoronagraph', _EF, wavelengthInNm=1650, vortexCharge=2.0),
        'fqpm': _o('FourQuadrantCoronagraph', _EF, wavelengthInNm=1650,
                   outerStopAsRatioOfPupil=0.9),
        'loss': _o('PowerLoss', {'se_sr': 'psf.out_sr'}, wavelengthInNm=1650, nd=2,
                   prop_distance=1e6, receiver_diam=0.5),
        'curv': _o('CurvatureSensor', _EF, sp=False, wavelengthInNm=750, wanted_fov=2.0,
                   pxscale=0.1, number_px=20, defocus_rms_nm=300.0),
        'cc': _o('CiaoCiaoSensor', _EF, sp=False, wavelengthInNm=2200, number_px=16,
                 tiltInArcsec=[1.0, 0.5]),
        'zwfs': _o('ZernikeSensor', _EF, wavelengthInNm=750, fov=2.0, pup_diam=8,
                   output_resolution=12),
        'cz': _o('CCD', {'in_i': 'zwfs.out_i'}, size=[12, 12], **_CCD),
        'sz': _o('ZwfsSlopec', {'in_pixels': 'cz.out_pixels'}, sp=False, pup_diam=8, ccd_size=12),
        'c1': _o('CCD', {'in_i': 'curv.out_i1'}, size=[20, 20], **_CCD),
        'c2': _o('CCD', {'in_i': 'curv.out_i2'}, size=[20, 20], **_CCD),
        'sc': _o('CurWfsSlopec', {'in_pixels1': 'c1.out_pixels', 'in_pixels2': 'c2.out_pixels'},
                 sp=False, diameter=12, ccd_size=[20, 20]),
    },
    'sh': {
        **_FRONT,
        's4': _star(0.5, 45.0, 6, height=20000.0),
        'sh': _o('SH', _EF, sp=False, wavelengthInNm=750, subap_wanted_fov=4.0,
                 sensor_pxscale=1.0, subap_on_diameter=4, subap_npx=4),
        'dsh': _o('DistributedSH', _EF, sp=False, wavelengthInNm=750, subap_wanted_fov=4.0,
                  sensor_pxscale=1.0, subap_on_diameter=4, subap_npx=4, n_slices=2),
        'psh': _o('PolyChromSH', _EF, sp=False, wavelengthInNm=[700, 800], flux_factor=[0.4, 0.6],
                  subap_wanted_fov=4.0, sensor_pxscale=1.0, subap_on_diameter=4, subap_npx=4),
        'det': _o('CCD', {'in_i': 'sh.out_i'}, size=[16, 16], photon_noise=True,
                  readout_noise=True, readout_level=1.0, **_CCD),
        'det2': _o('CCD', {'in_i': 'dsh.out_i'}, size=[16, 16], dt=0.002, bandw=300),
        'det3': _o('CCD', {'in_i': 'psh.out_i'}, size=[16, 16], excess_noise=True,
                   emccd_gain=10, **_CCD),
        'sl': _o('ShSlopec', {'in_pixels': 'det.out_pixels'}, sp=False, subapdata_object='lib',
                 sn_object='lib'),
        'sl2': _o('ShSlopec', {'in_pixels': 'det2.out_pixels'}, sp=False, subapdata_object='lib',
                  thr_value=0.5, weightedPixRad=1.5),
        'mon': _o('SpotMonitor', {'in_pixels': 'det2.out_pixels'}, sp=False,
                  subapdata_object='lib'),
        'ids': _o('IdealDerivativeSensor', _EF, subapdata_object='lib', fov=4.0),
        'rec': _o('Modalrec', {'in_slopes': 'sl.out_slopes'}, sp=False, recmat_object='lib'),
        'polc': _o('Modalrec', {'in_slopes': 'sl.out_slopes', 'in_commands': 'ctl.out_comm:-1'},
                   sp=False, recmat_object='lib', intmat_object='lib', projmat_object='proj',
                   polc=True),
        'mrate': _o('ModalrecMultirate', {'in_slopes_list': ['sl.out_slopes', 'ids.out_slopes']},
                    sp=False, recmat_list_object=['libb', 'libb', 'libb'],
                    validity_masks=[[True, False], [False, True], [True, True]], n_modes_total=3),
        'ctl': _o('Integrator', {'delta_comm': 'rec.out_modes'}, int_gain=[0.5, 0.25, 0.3]),
        'dm2': _o('DM', {'in_command': 'ctl.out_comm'}, type_str='zernike', nmodes=3, height=0),
        'prop2': _o('AtmoPropagation',
                    {'common_layer_list': ['pup', 'dm.out_layer', 'dm2.out_layer:-1']},
                    source_dict_ref=['s1', 's4']),
        'psf': _o('PSF', {'in_ef': 'prop2.out_s1_ef'}, wavelengthInNm=1650, nd=2),
    },
    'pyr': {
        **_FRONT,
        'pyr': _o('ModulatedPyramid', _EF, wavelengthInNm=750, fov=1.0, pup_diam=8,
                  output_resolution=24, mod_amp=2.0, mod_step=16),
        'roof': _o('ModulatedDoubleRoof', _EF, wavelengthInNm=750, fov=1.0, pup_diam=8,
                   output_resolution=24, mod_amp=2.0, mod_step=16),
        'ppyr': _o('PolyCromPyramid', _EF, wavelengthInNm=[700, 800], flux_factor=[0.3, 0.7],
                   fov=1.0, pup_diam=8, output_resolution=24, mod_amp=2.0, mod_step=16),
        'ext': _o('ExtendedSource', wavelengthInNm=750, source_type='TOPHAT', size_obj=0.3,
                  sampling_type='RINGS', n_rings=2),
        'epyr': _o('ExtSourcePyramid', {**_EF, 'ext_source_coeff': 'ext.coeff'},
                   wavelengthInNm=750, fov=1.0, pup_diam=8, output_resolution=24),
        'det': _o('CCD', {'in_i': 'pyr.out_i'}, size=[24, 24], photon_noise=True, **_CCD),
        'det2': _o('CCD', {'in_i': 'roof.out_i'}, size=[24, 24], **_CCD),
        'det3': _o('CCD', {'in_i': 'ppyr.out_i'}, size=[24, 24], binning=2, dt=0.002, bandw=300),
        'det4': _o('CCD', {'in_i': 'epyr.out_i'}, size=[24, 24], darkcurrent_noise=True,
                   darkcurrent_level=2.0, background_noise=True, background_level=1.0, **_CCD),
        'sl': _o('PyrSlopec', {'in_pixels': 'det.out_pixels'}, sp=False, pupdata_object='lib'),
        'sl2': _o('DoubleRoofSlopec', {'in_pixels': 'det2.out_pixels'}, sp=False,
                  pupdata_object='lib'),
        'sl4': _o('PyrSlopec', {'in_pixels': 'det4.out_pixels'}, sp=False, pupdata_object='lib',
                  shlike=True, thr_value=0.1),
    },
    'vector': {
        'g1': _wave([1.0, 2.0, 3.0], [100.0, 50.0, 20.0], [3.0, 2.0, 4.0]),
        'g2': _wave([4.0, 3.0, 1.0], [200.0, 50.0, 30.0], [1.0, 5.0, 2.0], 'TRIANGLE'),
        'g3': _wave([0.1], [50.0], [1.0]),
        'sq': _wave([1.0, 2.0, 3.0], [250.0, 100.0, 50.0], [3.0, 2.0, 4.0], 'SQUARE'),
        'rnd': _o('RandomGenerator', sp=False, amp=[1.0, 2.0, 3.0], seed=11),
        'rnd2': _o('RandomGenerator', sp=False, distribution='UNIFORM', amp=2.0, vsize=3, seed=7),
        'sched': _o('ScheduleGenerator', sp=False, scheduled_values=[[0.5], [1.0], [2.0]],
                    scheduled_times=[0.001, 0.003], modes_per_group=[3]),
        'pp': _o('PushPullGenerator', sp=False, nmodes=3, amp=5.0),
        'vib': _o('VibrationGenerator', nmodes=2, psd_data='psd', freq_data='freq', seed=5),
        'th': _o('TimeHistoryGenerator', sp=False, time_hist_object='lib'),
        'add': _o('BaseOperation', {'in_value1': 'g1.output', 'in_value2': 'f1.out_comm:-1'},
                  sp=False, sum=True),
        'cat': _o('BaseOperation', {'in_value1': 'add.out_value', 'in_value2': 'g2.output'},
                  sp=False, concat=True),
        'cmul': _o('BaseOperation', {'in_value1': 'g1.output'}, sp=False, constant_mul=2.0),
        'mul': _o('BaseOperation', {'in_value1': 'rnd.output', 'in_value2': 'sched.output'},
                  sp=False, mul=True),
        'max': _o('BaseOperation', {'in_value1': 'rnd2.output'}, sp=False, constant_max=0.1),
        'cut': _o('BaseSlicer', {'in_value': 'cat.out_value'}, sp=False, slice_args=[1, 6, 2]),
        'pick': _o('BaseSlicer', {'in_value': 'cat.out_value'}, sp=False, indices=[4, 0, 1]),
        'ins': _o('BaseInserter', {'in_value': 'pick.out_value'}, sp=False, output_size=6,
                  indices=[[0, 1, 2], [5, 1, 2]]),
        'mvm': _o('MVM', {'in_vector': 'g1.output'}, sp=False, recmat_object='sq'),
        'win': _o('WindowedIntegration', {'input': 'g1.output'}, n_elem=3, dt=0.002),
        'dem': _o('Demodulator', {'in_data': 'g1.output'}, mode_numbers=[0, 1],
                  carrier_frequencies=[250.0, 500.0], demod_dt=0.004),
        'f1': _o('LowPassFilter', {'delta_comm': 'g2.output'}, cutoff_freq=[100.0] * 3, n_ord=2),
        'f2': _o('Integrator', {'delta_comm': 'g1.output', 'gain_mod': 'sched.output'},
                 int_gain=[0.5, 0.4, 0.3], ff=[0.99, 0.9, 1.0], delay=1.5),
        'f3': _o('IirFilter', {'delta_comm': 'g1.output'}, iir_filter_data_object='lib'),
        'f4': _o('DynamicIirFilter', {'delta_comm': 'g1.output', 'int_gain': 'g1.output'},
                 iir_filter_data_object='lib'),
        'f5': _o('DynamicIntegrator', {'delta_comm': 'g1.output', 'int_gain': 'sq.output'},
                 int_gain=[0.5, 0.4, 0.3]),
        'f6': _o('SsrFilter', {'delta_comm': 'g1.output'}, ssr_filter_data_object='libs', delay=1),
        'mcf': _o('MultirateComplementaryFilter',
                  {'in_yf': 'g1.output', 'in_ys': ['g2.output']}, iir_filter_data_object='lib',
                  g_track=0.3, weights=[0.5, 0.5], N_list=[2], validate_sync=False),
        'lin': _o('LinearCombination',
                  {'in_vectors_list': ['cat.out_value', 'g3.output', 'g2.output']},
                  no_lift=True),
        'gopt': _o('GainOptimizer', {'delta_comm': 'g1.output', 'out_comm': 'f3.out_comm'},
                   iir_filter_data_object='lib', opt_dt=0.002, ngains=4, verbose=False),
        'oge': _o('OpticalGainEstimator', {'in_demod_delta_command': 'g3.output',
                                           'in_demod_command': 'g3.output'}, sp=False, gain=0.5),
        'buf': _o('DataBuffer', sp=False, buffer_size=2,
                  inputs={'input_list': ['a-g1.output', 'b-rnd.output']},
                  outputs=['a_buffered', 'b_buffered']),
    },
}
DATA = ('Source', 'Pupilstop')      # classes of data objects
_ready = []


def prepare():
    """Write the calibrations once per process."""
    import numpy as np
    from astropy.io import fits
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.ssr_filter_data import SsrFilterData
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.time_history import TimeHistory
    if _ready:
        return
    root = scratch()

    def out(d, t):
        os.makedirs(os.path.join(root, d), exist_ok=True)
        f = os.path.join(root, d, t + '.fits')
        if os.path.exists(f):
            os.remove(f)
        return f

    def mat(r, c, k=1.0):
        return np.cos(np.arange(r * c).reshape(r, c) * 1.7 * k) + 0.1
    # 4x4 lenslets of 4x4 pixels: 12 of them used
    subs = [k for k in range(16) if k not in (0, 3, 12, 15)]
    pix = np.arange(256).reshape(16, 16)
    idx = np.array([pix[k // 4 * 4:k // 4 * 4 + 4, k % 4 * 4:k % 4 * 4 + 4].ravel()
                    for k in subs])
    SubapData(idx, np.array(subs), nx=4, ny=4).save(out('subapdata', 'lib'), overwrite=True)
    Slopes(slopes=0.01 * np.arange(24.)).save(out('slopenulls', 'lib'), overwrite=True)
    Recmat(mat(3, 24)).save(out('rec', 'lib'), overwrite=True)
    Recmat(mat(3, 48, 0.5)).save(out('rec', 'libb'), overwrite=True)
    Recmat(mat(3, 3, 2.0)).save(out('rec', 'proj'), overwrite=True)
    Recmat(mat(4, 3, 3.0)).save(out('rec', 'sq'), overwrite=True)
    Intmat(mat(24, 3, 0.3)).save(out('im', 'lib'), overwrite=True)
    yy, xx = np.mgrid[:24, :24]
    cs = [(17, 6), (6, 6), (6, 17), (17, 17)]
    ind = np.array([np.flatnonzero(((xx - a) ** 2 + (yy - b) ** 2 < 16).ravel()) for a, b in cs]).T
    PupData(ind_pup=ind, radius=[4.] * 4, cx=[float(a) for a, _ in cs],
            cy=[float(b) for _, b in cs], framesize=[24, 24]).save(out('pupils', 'lib'),
                                                                  overwrite=True)
    n3 = np.array([[0.0, 0.5], [0.1, 0.4], [0.0, 0.3]])
    d3 = np.array([[-1.0, 1.0], [-0.9, 1.0], [-0.8, 1.0]])
    IirFilterData([2] * 3, [2] * 3, n3, d3).save(out('filter', 'lib'))
    A = np.array([[0.9]])
    B = np.array([[1.0]])
    SsrFilterData([A] * 3, [B] * 3, [0.5 * B] * 3, [0.1 * B] * 3).save(out('filter', 'libs'))
    TimeHistory(mat(6, 2)).save(out('data', 'lib'))
    fits.writeto(out('data', 'psd'), np.array([[1.0, 2.0, 1.0, 0.5], [2.0, 1.0, 0.3, 0.1]]),
                 overwrite=True)
    fits.writeto(out('data', 'freq'), np.array([[50.0, 100.0, 200.0, 400.0]] * 2).T, overwrite=True)
    _ready.append(1)


def params(name, steps=STEPS):
    p = {'main': main_params(total_time=steps / 1000, pixel_pupil=N)}
    p.update(copy.deepcopy(SIMS[name]))
    return p


def procs(name):
    """Names of the processing objects."""
    return [k for k, d in SIMS[name].items() if d['class'] not in DATA]
