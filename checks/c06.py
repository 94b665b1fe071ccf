"""C06 - saving a data object and restoring it gives the same object."""
import os
from vlib.core import *
specula_init()
from astropy.io import fits
from specula.base_value import BaseValue
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.intensity import Intensity
from specula.data_objects.pixels import Pixels
from specula.data_objects.slopes import Slopes
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.m2c import M2C
from specula.data_objects.ifunc import IFunc
from specula.data_objects.ifunc_inv import IFuncInv
from specula.data_objects.pupdata import PupData
from specula.data_objects.subap_data import SubapData
from specula.data_objects.iir_filter_data import IirFilterData
from specula.data_objects.ssr_filter_data import SsrFilterData
from specula.data_objects.time_history import TimeHistory
from specula.data_objects.spatio_temp_array import SpatioTempArray
from specula.data_objects.source import Source
from specula.data_objects.lenslet import Lenslet
from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
from specula.data_objects.convolution_kernel import ConvolutionKernel
from specula.data_objects.gaussian_convolution_kernel import GaussianConvolutionKernel

CHECK = Check('C06', 'save/restore', scale=2, assumptions=[
    'objects are built in the global precision, in which restore() rebuilds them',
    "an unset tag (None) and an empty tag are the same thing",
    'modes2recLayer of a reconstructor is documented as unused and is not part of its contents'])

dims = st.integers(1, 9)
reals = st.floats(-1e6, 1e6, allow_nan=False, width=32, allow_subnormal=False)
posit = st.floats(0.0009765625, 1e5, allow_nan=False, width=32, allow_subnormal=False)
tags = st.text('abcdefghijklmnopqrstuvwxyz0123456789_-.', max_size=24)
common = {'seed': st.integers(0, 2**31)}
dt = DT


def case(**k):
    return st.fixed_dictionaries({**common, **k})


def arrs(rng, shape, dt):
    return (rng.normal(size=shape) * 10.0 ** rng.integers(-3, 4)).astype(dt)


def _header_copy(obj, cls, attrs):
    """The header plus the value rebuild the object (what a replay from disk does)."""
    new = cls.from_header(obj.get_fits_header())
    new.set_value(np.array(obj.get_value()))
    for a in attrs:
        equal_attr(getattr(obj, a), getattr(new, a), f'{cls.__name__}.{a} rebuilt from its header')


def roundtrip(obj, cls, attrs, overwrite_kw=True, header=False, extra=None):
    before = {a: (np.array(getattr(obj, a)) if isinstance(getattr(obj, a), np.ndarray) else getattr(obj, a)) for a in attrs}
    with Scratch() as d:
        f = os.path.join(d, 'obj.fits')
        obj.save(f)
        back = cls.restore(f)
        check(isinstance(back, cls), f'{cls.__name__}.restore gave a {type(back).__name__}')
        for a in attrs:
            equal_attr(before[a], getattr(obj, a), f'{cls.__name__}.{a} changed by save')
            equal_attr(before[a], getattr(back, a), f'{cls.__name__}.{a} after restore')
        if extra:
            extra(back)
        # a second generation is identical to the first
        g = os.path.join(d, 'obj2.fits')
        back.save(g)
        again = cls.restore(g)
        for a in attrs:
            equal_attr(before[a], getattr(again, a), f'{cls.__name__}.{a} after restoring twice')
    if header:
        _header_copy(obj, cls, attrs)
    return back


@CHECK.family(case(nx=dims, ny=dims, pitch=posit, S0=posit, kind=st.sampled_from(['ef', 'layer', 'stop']), height=reals,
                   shift=st.tuples(reals, reals), rot=reals, mag=posit, mask=st.booleans(), diam=st.floats(0.3, 1), obs=st.floats(0, 0.5)),
              250, 6000, rule='electric fields, layers and pupil stops of random shape, content and geometry', double=0.5)
def fields(c):
    rng = rng_of(c['seed'])
    if c['kind'] == 'ef':
        o = ElectricField(c['nx'], c['ny'], c['pitch'], c['S0'])
        o.field[:] = arrs(rng, (2, c['ny'], c['nx']), dt)
        roundtrip(o, ElectricField, ['A', 'phaseInNm', 'field', 'pixel_pitch', 'S0', 'size', 'dtype'], header=True)
    elif c['kind'] == 'layer':
        o = Layer(c['nx'], c['ny'], c['pitch'], c['height'], shiftXYinPixel=tuple(c['shift']), rotInDeg=c['rot'],
                  magnification=c['mag'])
        o.field[:] = arrs(rng, (2, c['ny'], c['nx']), dt)
        roundtrip(o, Layer, ['A', 'phaseInNm', 'field', 'pixel_pitch', 'height', 'rotInDeg', 'magnification',
                             'shiftXYinPixel', 'size', 'dtype'], header=True)
    else:
        n = max(c['nx'], 2)
        sp = SimulParams(pixel_pupil=n, pixel_pitch=c['pitch'])
        o = Pupilstop(sp, input_mask=arrs(rng, (n, n), dt) if c['mask'] else None, mask_diam=c['diam'], obs_diam=c['obs'],
                      shiftXYinPixel=tuple(c['shift']), rotInDeg=c['rot'], magnification=c['mag'])
        roundtrip(o, Pupilstop, ['A', 'phaseInNm', 'pixel_pitch', 'rotInDeg', 'magnification', 'shiftXYinPixel', 'size',
                                 'height', 'dtype'], header=True)


@CHECK.family(case(nx=dims, ny=dims, kind=st.sampled_from(['int', 'pix', 'slopes', 'value', 'scalar', 'th', 'sta']),
                   bits=st.integers(1, 64), signed=st.sampled_from([0, 1]), inter=st.booleans(), t1=tags, t2=tags,
                   val=reals, nd=st.integers(1, 3), first=st.booleans()),
              350, 9000, rule='intensities, pixels, slopes, plain values, time histories, spatio-temporal arrays', double=0.5)
def measurements(c):
    rng = rng_of(c['seed'])
    k, nx, ny = c['kind'], c['nx'], c['ny']
    if k == 'int':
        o = Intensity(nx, ny)
        o.i[:] = arrs(rng, (ny, nx), dt)
        roundtrip(o, Intensity, ['i', 'dtype'], header=True)
    elif k == 'pix':
        o = Pixels(nx, ny, bits=c['bits'], signed=c['signed'])
        o.pixels[:] = arrs(rng, (ny, nx), dt)
        roundtrip(o, Pixels, ['pixels', 'bpp', 'bytespp', 'signed', 'type', 'size', 'dtype'], header=True)
    elif k == 'slopes':
        n = 2 * nx
        o = Slopes(slopes=arrs(rng, n, dt), interleave=c['inter'])
        o.pupdata_tag, o.subapdata_tag = c['t1'] or None, c['t2'] or None
        roundtrip(o, Slopes, ['slopes', 'interleave', 'pupdata_tag', 'subapdata_tag', 'xslopes', 'yslopes', 'size',
                              'dtype'], header=True)
    elif k == 'value':
        o = BaseValue(value=arrs(rng, [3, nx, ny][:c['nd']], dt))
        roundtrip(o, BaseValue, ['value'])
    elif k == 'scalar':
        o = BaseValue(value=c['val'])
        roundtrip(o, BaseValue, ['value'])
    elif k == 'th':
        o = TimeHistory(arrs(rng, (nx, ny), dt))
        roundtrip(o, TimeHistory, ['time_history'])
    else:
        shape = [nx, ny, 3][:c['nd']]
        t = np.sort(rng.random(shape[0])).astype(dt)
        a = arrs(rng, shape, dt)
        o = SpatioTempArray(a if c['first'] else np.moveaxis(a, 0, -1), t, time_axis=0 if c['first'] else -1)
        back = roundtrip(o, SpatioTempArray, ['array', 'time_vector'], header=False)
        same(back.get_value(), a, 'array, time first')
        new = SpatioTempArray.from_header(o.get_fits_header())
        new.set_value(o.get_value())
        new.set_time_vector(o.get_time_vector())
        same(new.get_value(), a, 'array rebuilt from its header')
        same(new.get_time_vector(), t, 'time vector rebuilt')
    return k


@CHECK.family(case(n=dims, m=dims, kind=st.sampled_from(['im', 'rec', 'm2c', 'ifunc', 'ifinv']), t1=tags, t2=tags,
                   norm=st.one_of(st.none(), reals), mm=st.booleans(), rms=st.booleans(), npix=st.integers(2, 7)),
              350, 9000, rule='interaction matrices, reconstructors, mode-to-command matrices, influence functions', double=0.5)
def matrices(c):
    rng = rng_of(c['seed'])
    n, m, k = c['n'], c['m'], c['kind']
    if k == 'im':
        mm = arrs(rng, (m, 2), dt) if c['mm'] else None
        rms = arrs(rng, m, dt) if c['rms'] else None
        o = Intmat(arrs(rng, (n, m), dt), slope_mm=mm, slope_rms=rms, pupdata_tag=c['t1'], subapdata_tag=c['t2'],
                   norm_factor=c['norm'] or 0.0)
        roundtrip(o, Intmat, ['intmat', 'nmodes', 'nslopes', 'slope_mm', 'slope_rms', 'pupdata_tag', 'subapdata_tag',
                              'norm_factor'])
    elif k == 'rec':
        o = Recmat(arrs(rng, (n, m), dt), norm_factor=c['norm'] or 0.0)
        roundtrip(o, Recmat, ['recmat', 'norm_factor', 'nmodes'])
    elif k == 'm2c':
        o = M2C(arrs(rng, (n, m), dt), nmodes=min(m, 3), norm_factor=c['norm'])
        check(o.m2c.shape == (n, min(m, 3)) and o.nmodes == min(m, 3), 'number of modes kept', o.m2c.shape)
        roundtrip(o, M2C, ['m2c', 'nmodes', 'norm_factor'])
    else:
        mask = rng.random((c['npix'], c['npix'])) < 0.7
        mask[0, 0] = True
        npt = int(mask.sum())
        if k == 'ifunc':
            o = IFunc(arrs(rng, (n, npt), dt), mask=mask.astype(dt))
            roundtrip(o, IFunc, ['influence_function', 'mask_inf_func', 'idx_inf_func', 'size'])
        else:
            o = IFuncInv(arrs(rng, (npt, n), dt), mask.astype(dt))
            roundtrip(o, IFuncInv, ['ifunc_inv', 'mask_inf_func', 'idx_inf_func', 'size'])
    return k


@CHECK.family(case(n=st.integers(1, 12), nsub=st.integers(1, 6), nx=st.integers(1, 6), ny=st.integers(1, 6),
                   kind=st.sampled_from(['pup', 'sub', 'iir', 'ssr', 'src', 'lens', 'llt']), th=st.floats(0, 1),
                   npup=st.sampled_from([1, 2, 4]), flag=st.booleans(), o1=st.integers(1, 4), o2=st.integers(1, 4),
                   mag=st.floats(-5, 30), wl=posit, height=st.one_of(st.just('inf'), posit), band=st.sampled_from(['', 'V', 'R', 'J']),
                   zp=st.floats(0, 1e10), pos=st.tuples(st.floats(0, 1e3), st.floats(-360, 360)),
                   err=st.tuples(st.floats(-5, 5), st.floats(-5, 5)), tel=st.lists(reals, min_size=3, max_size=3)),
              400, 9000, rule='pupil and sub-aperture maps, filters, sources, lenslets, launch telescopes', double=0.5)
def descriptions(c):
    rng = rng_of(c['seed'])
    k, n = c['kind'], c['n']
    if k == 'pup':
        fs = [2 * c['nx'] + 2, 2 * c['ny'] + 2]
        o = PupData(ind_pup=rng.integers(-1, fs[0] * fs[1], size=(n, c['npup'])), radius=rng.random(c['npup']) * 9,
                    cx=rng.random(c['npup']) * 9, cy=rng.random(c['npup']) * 9, framesize=fs)
        o.set_slopes_from_intensity(c['flag'])
        roundtrip(o, PupData, ['ind_pup', 'radius', 'cx', 'cy', 'framesize', 'n_subap', 'n_pupils',
                               'slopes_from_intensity', 'display_map'])
    elif k == 'sub':
        nsub = c['nx'] * c['ny']
        npx = c['nsub']
        idx = rng.integers(0, 10000, size=(nsub, npx * npx))
        o = SubapData(idx, rng.permutation(nsub), c['nx'], c['ny'], energy_th=c['th'])
        roundtrip(o, SubapData, ['idxs', 'display_map', 'nx', 'ny', 'energy_th', 'n_subaps', 'np_sub'])
    elif k == 'iir':
        no = max(c['o1'], c['o2'])
        num = rng.normal(size=(n, no))
        den = rng.normal(size=(n, no))
        ordn = np.full(n, c['o1'])
        ordd = np.full(n, c['o2'])
        for i in range(n):
            num[i, :no - c['o1']] = 0
            den[i, :no - c['o2']] = 0
            den[i, -1] = 1
        o = IirFilterData(ordn, ordd, num, den)
        roundtrip(o, IirFilterData, ['num', 'den', 'ordnum', 'ordden', 'gain', 'nfilter'])
    elif k == 'ssr':
        ns = c['o1']
        blocks = [rng.normal(size=s) for s in ((ns, ns), (ns, 1), (1, ns), (1, 1))]
        o = SsrFilterData(*[[b] * c['o2'] for b in blocks])
        roundtrip(o, SsrFilterData, ['A', 'B', 'C', 'D', 'nfilter', 'total_states'])
    elif k == 'src':
        h = float(c['height'])
        o = Source(list(c['pos']), c['mag'], c['wl'], height=h, band=c['band'], zero_point=c['zp'], error_coord=tuple(c['err']))
        roundtrip(o, Source, ['polar_coordinates', 'height', 'magnitude', 'wavelengthInNm', 'band', 'zero_point',
                              'error_coord', 'r', 'phi', 'r_arcsec', 'phi_deg'])
    elif k == 'lens':
        o = Lenslet(n)

        def lenses(b):
            for i in range(n):
                for j in range(n):
                    same(b.get(i, j), o.get(i, j), f'lens {i},{j}')
        roundtrip(o, Lenslet, ['n_lenses', 'dimx', 'dimy'], extra=lenses)
    else:
        sp = SimulParams(zenithAngleInDeg=60 * c['th'])
        o = LaserLaunchTelescope(sp, spot_size=c['zp'] / 1e9, tel_position=c['tel'], beacon_focus=c['wl'], beacon_tt=list(c['err']))
        roundtrip(o, LaserLaunchTelescope, ['spot_size', 'tel_pos', 'beacon_focus', 'beacon_tt'])
    return k


@CHECK.family(case(dim=st.sampled_from([4, 6, 8]), n=st.integers(2, 3), px=st.floats(0.2, 1.5), spot=st.floats(0.4, 2),
                   kind=st.sampled_from(['conv', 'gauss']), fft=st.booleans(), tt=st.booleans(), over=st.sampled_from([1, 2]),
                   launch=st.lists(st.floats(-5, 5), min_size=3, max_size=3), nz=st.integers(1, 3), focus=st.sampled_from([90e3, -1, 80e3])),
              25, 600, rule='spot kernels computed once, then taken from the cache written on disk by the first one', double=0.5)
def kernels(c):
    with Scratch() as d:
        rng = rng_of(c['seed'])

        def build():
            if c['kind'] == 'conv':
                k = ConvolutionKernel(c['n'], c['n'], c['px'], 8.0, c['dim'], launcher_pos=c['launch'], seeing=c['spot'],
                                      zfocus=c['focus'], oversampling=c['over'], return_fft=c['fft'],
                                      positive_shift_tt=c['tt'], data_dir=d)
                z = (90e3 + 1000 * np.arange(c['nz'])).tolist()
                p = (np.arange(c['nz']) + 1.0).tolist()
                k.prepare_for_sh(sodium_altitude=z, sodium_intensity=p, current_time=7)
            else:
                k = GaussianConvolutionKernel(c['n'], c['n'], c['px'], c['dim'], c['spot'], 8.0, return_fft=c['fft'],
                                              positive_shift_tt=c['tt'], data_dir=d)
                k.prepare_for_sh(current_time=7)
            return k
        a = build()
        ka = np.array(a.kernels)
        files = sorted(os.listdir(d))
        check(len(files) == 1, f'{len(files)} files in the kernel cache')
        b = build()
        check(sorted(os.listdir(d)) == files, 'the second kernel was not taken from the cache')
        close(b.kernels, ka, rtol=1e-6, what='kernel taken from the cache')
        check(b.generation_time == 7, 'time of the kernel')
        f = os.path.join(d, files[0])
        cls = ConvolutionKernel if c['kind'] == 'conv' else GaussianConvolutionKernel
        r = cls.restore(f)
        r.save(os.path.join(d, 'again.fits'))
        q = cls.restore(os.path.join(d, 'again.fits'))
        close(q.get_value(), r.get_value(), rtol=1e-6, what='restored kernel')
        for at in ('dimx', 'dimy', 'pxscale', 'dimension', 'oversampling', 'positive_shift_tt'):
            equal_attr(getattr(a, at), getattr(r, at), at)
        tot = r.get_value().sum(axis=(1, 2))
        close(tot, np.ones(len(tot)), rtol=1e-5, what='flux of a kernel')
