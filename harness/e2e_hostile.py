"""C23: the whole program under AddressSanitizer and UBSan on hostile files, images, options and configurations"""
import math
import os
import re
import sys
import numpy as np
from e2e_main import section, main
import sepp
from sepp import *
from e2e import opts

ALL = ('AssocMode AutoPhotometry ErrorEllipse FluxRadius GroupInfo GroupStamp GrowthCurve HduNumber IsophotalFlux KronRadius NCorePixel '
       'NDetectedPixels PeakValue PixelBoundaries PixelCentroid SNRRatio ShapeParameters SourceFlags SourceIDs Vignet WorldCentroid').split()
CHECKNAMES = 'residual background variance segmentation measurement-background measurement-variance partition grouping filtered thresholded snr auto-aperture aperture psf model-fitting'.split()
NUM = [0, 1, -1, 2, 3, 7, 255, 1e-30, 1e30, -1e30, 1e300, -1e300, 0.5, -0.5, 1e-5, 2147483647, 2147483648, -2147483648, 4294967296, 9223372036854775807, -9223372036854775808, 1e19]
TEXT = ['', ' ', 'nan', 'inf', '-inf', 'NaN', 'abc', '0', '-1', '1e400', '99999999999999999999', '1,2,3', ',', ',,', '1;2', '0x10', '/', '.', '..', '%s%n', "'", 'T', 'true', '1 ', '\t', 'a' * 3000, '\xff\xfe', '1e-400', '+', '-', '--', '3.5.1', 'None']


def judge(c, r, what, files):
    """every run must end in order: no sanitizer report, abort or signal, and a catalogue when it says that it succeeded"""
    c._s['evaluations'] += 1
    if r.timeout and 'FlexibleModelFitting' in r.cmd:
        c.counter('not finished: model fitting of groups of hundreds of sources takes minutes')
        return
    if r.timeout:
        c.fail(f'{what}-hang', f'no end within the time limit, twice: {r.cmd}')
        return
    if 'allocation-size-too-big' in r.err or 'out-of-memory' in r.err or 'bad_alloc' in r.err:
        c.counter('too much memory asked for')
        return
    if r.crashed and re.search(r'#[0-5] .* in (wcspih|disset) ', r.err):
        c.counter('wcslib itself crashes')     # on its own input: nothing of this repository on the way
        return
    if r.crashed:
        c.fail(f'{what}-' + crash_key(r), report(r))
        return
    c.counter(f'{what}: ' + ('processed' if r.rc == 0 else 'refused'))
    if r.rc and os.environ.get('VH_REASONS'):
        e = [q for q in r.err.splitlines() if 'VSHIM-EXC' in q]
        c.counter('REASON ' + (e[-1][16:90] if e else repr(r.err[-80:])))
    if r.rc == 0 and files:
        for f in files:
            if not c.check(os.path.exists(f), f'{what}-nothing', f'exit 0 without {os.path.basename(f)}: {r.cmd}'):
                return


def report(r):
    e = r.err
    i = max(0, min([e.find(q) for q in ('ERROR: AddressSanitizer', 'runtime error:', 'Assertion', 'VSHIM-TERMINATE') if e.find(q) >= 0] or [0]) - 200)
    return f'{r.cmd}\n{e[i:i + 9000]}'


def number(rng):
    k = rng.random()
    if k < .6:
        return rng.choice(NUM)
    if k < .7:
        return rng.choice([float('nan'), float('inf'), -float('inf')])
    if k < .85:
        return rng.randint(-100, 100)
    return rng.choice([-1, 1]) * 10 ** rng.uniform(-40, 40)


def numtext(rng):
    v = number(rng)
    return rng.choice(TEXT) if rng.random() < .25 else (repr(v) if isinstance(v, float) else str(v))


def nasty_image(rng, w, h):
    """image content: constant, empty regions, not a number, infinite, huge, single pixels"""
    img, src = scene(rng, w, h, rng.randint(0, 6), 1.0, 0.0, fmin=200, fmax=2e4, smin=.5, smax=3)
    g = np.random.default_rng(rng.getrandbits(50))
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.randrange(11)
        y0, x0 = rng.randrange(h), rng.randrange(w)
        y1, x1 = rng.randint(y0 + 1, h), rng.randint(x0 + 1, w)
        box = (slice(y0, y1), slice(x0, x1))
        if k == 0:
            img[:] = rng.choice([0, 1, -5, 1e30, -1e30, 1e38, 1e-40, 3.4e38])
        elif k == 1:
            img[:] = np.nan
        elif k == 2:
            img[box] = np.nan
        elif k == 3:
            img[y0, x0] = rng.choice([np.nan, np.inf, -np.inf, 1e38, -1e38])
        elif k == 4:
            img[box] = rng.choice([np.inf, -np.inf, 1e38, -1e38, 0])
        elif k == 5:
            img *= rng.choice([1e30, -1, 1e-35, 1e33, 0])
        elif k == 6:
            img[:] = np.where((np.indices(img.shape).sum(0) % 2) > 0, 1000, -1000)
        elif k == 7:
            img[g.uniform(size=img.shape) < .1] = rng.choice([np.nan, 1e5, -1e5])
        elif k == 8:
            img[:] = np.arange(img.size).reshape(img.shape)
        elif k == 9:
            img[:, x0] = 1e4
        else:
            img[y0, :] = rng.choice([1e4, np.nan])
    return np.asarray(img, np.float32)


def size(rng, big=48):
    k = rng.random()
    if k < .1:
        return rng.choice([(1, 1), (1, 2), (2, 1), (1, 30), (30, 1), (2, 2), (3, 3), (5, 4)])
    return rng.randint(1, big), rng.randint(1, big)


class Base:
    """a valid set-up with most features switched on; one ingredient is then spoiled"""

    def __init__(self, c, parts=('weight', 'flag', 'assoc', 'psf', 'py', 'checks', 'head')):
        rng = c.rng
        self.c, self.rng = c, rng
        self.w, self.h = rng.randint(20, 48), rng.randint(20, 48)
        self.img, self.src = scene(rng, self.w, self.h, rng.randint(2, 7), 1.0, 0.0, fmin=500, fmax=2e4, smin=1, smax=2.5)
        self.keys = tan_wcs(self.w, self.h, rot=rng.uniform(0, 6))
        self.o = o = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.fits', 'thread-count': rng.choice([0, 1, 3])}
        props = [p for p in ALL if p != 'AssocMode']
        if rng.random() < .5:
            o['background-value'] = 0
        else:
            o['background-cell-size'] = rng.choice([4, 8, 16, 64])
            o['smoothing-box-size'] = rng.choice([1, 3, 5])
        if rng.random() < .3:
            o['segmentation-algorithm'] = 'BFS'
        if rng.random() < .4:
            o['partition-multithreshold'] = True
        if rng.random() < .3:
            o['use-attractors-partition'] = True
        if rng.random() < .4:
            o['use-cleaning'] = True
        o['grouping-algorithm'] = rng.choice(['none', 'overlap', 'split', 'moffat'])
        if rng.random() < .5:
            o['tile-size'] = rng.choice([3, 8, 17])
            o['tile-memory-limit'] = 1
        self.files = {}
        self.files['det.fits'] = hdu_bytes(self.img, self.keys)
        has = lambda p, q: p in parts and rng.random() < q
        if has('weight', .5):
            o.update({'weight-image': 'wt.fits', 'weight-type': rng.choice(['rms', 'variance', 'weight']), 'weight-absolute': True})
            self.wt = np.random.default_rng(rng.getrandbits(40)).uniform(.5, 1.5, (self.h, self.w)).astype(np.float32)
            self.files['wt.fits'] = hdu_bytes(self.wt, {})
        if has('assoc', .4):
            props.append('AssocMode')
            self.cat = [(rng.uniform(0, self.w), rng.uniform(0, self.h), rng.gauss(0, 10)) for _ in range(rng.randint(1, 200))]
            self.files['assoc.dat'] = ('# x y v\n' + '\n'.join(' '.join(map(repr, q)) for q in self.cat) + '\n').encode()
            o.update({'assoc-catalog': 'assoc.dat', 'assoc-columns': '1,2', 'assoc-copy': '3', 'assoc-mode': rng.choice(['NEAREST', 'MEAN', 'SUM', 'MIN', 'FIRST', 'MAX', 'MAG_SUM'])})
        self.psf = None
        if has('psf', .5):
            if rng.random() < .5:
                o.update({'psf-fwhm': 2.5, 'psf-pixel-sampling': rng.choice([.5, 1])})
            else:
                o['psf-filename'] = 'psf.fits'
                self.files['psf.fits'] = psfex(rng) if rng.random() < .5 else hdu_bytes(gauss((9, 9), 4, 4, 1, 1.5), {'SAMPLING': 1.0})
            self.psf = True
        self.py = []
        if has('py', .6):
            self.mkeys = dict(self.keys, CRPIX1=self.keys['CRPIX1'] + rng.randint(-5, 5), CRPIX2=self.keys['CRPIX2'] + rng.randint(-5, 5))
            self.mimg = np.roll(self.img, (1, 2), (0, 1))[:rng.randint(10, self.h), :rng.randint(10, self.w)]
            self.files['m.fits'] = hdu_bytes(self.mimg, self.mkeys)
            self.pyargs = {}
            self.py = None          # made when written
            self.fit = rng.random() < .5 and self.psf
            self.free = ['o.centroid_x', 'o.centroid_y', 'o.isophotal_flux']
            self.pyextra = []
            o['python-config-file'] = 'm.py'
            props.append('AperturePhotometry')
            if self.fit:
                props.append('FlexibleModelFitting')
            self.apers = [round(rng.uniform(1, 20), 1) for _ in range(rng.randint(1, 3))]
        if has('checks', .3):
            for k in CHECKNAMES:
                if rng.random() < .6 and (k != 'psf' or self.psf):
                    o['check-image-' + k] = f'chk-{k}.fits'
        rng.shuffle(props)
        if rng.random() < .2:
            props = props[:rng.randint(1, len(props))]
        if rng.random() < .08:
            props.append('MoffatModelFitting')
            o['sampling-max-fit-size'] = 20
        self.o['output-properties'] = ','.join(dict.fromkeys(props))

    def write(self):
        d = self.c.dir
        for n, b in self.files.items():
            with open(f'{d}/{n}', 'wb') as f:
                f.write(b)
        if self.py is None:
            L = ['from sourcextractor.config import *', f"im = MeasurementImage('m.fits'{''.join(f', {k}={v}' for k, v in self.pyargs.items())})", 'g = MeasurementGroup(ImageGroup(images=[im]))',
                 f'ap = add_aperture_photometry([i for i in g], {self.apers!r})', "add_output_column('aper', ap)"]
            if self.fit:
                x, y, f = self.free
                L += [f'x = FreeParameter(lambda o: {x}, Range(lambda v, o: (v - 3, v + 3), RangeType.LINEAR))',
                      f'y = FreeParameter(lambda o: {y}, Range(lambda v, o: (v - 3, v + 3), RangeType.LINEAR))',
                      f'f = FreeParameter(lambda o: {f}, Range(lambda v, o: (abs(v) * .01 + 1e-3, abs(v) * 100 + 1), RangeType.EXPONENTIAL))',
                      'set_max_iterations(10)']
                if self.rng.random() < .5:
                    L += ['add_model(g, PointSourceModel(x, y, f))']
                else:
                    L += ['r = FreeParameter(lambda o: o.radius, Range(lambda v, o: (.01, 30), RangeType.EXPONENTIAL))', 'add_model(g, ExponentialModel(x, y, f, r, ConstantParameter(.7), ConstantParameter(lambda o: o.angle)))']
                L += ["add_output_column('fx', x)", "add_output_column('ff', f)"]
            L += self.pyextra
            with open(f'{d}/m.py', 'w', encoding='latin1') as f:
                f.write('\n'.join(L) + '\n')

    def go(self, what, extra=(), prog=None, timeout=60):
        self.write()
        r = run(opts(self.o) + list(extra), self.c.dir, timeout=timeout)
        if r.timeout or r.crashed:
            pass
        out = self.o.get('output-catalog-filename')
        judge(self.c, r, what, None)
        self.c.sig(what + str(sorted(self.o.items()))[:4000] + str([hash(b) for b in self.files.values()]))
        return r


def psfex(rng, spoil=None):
    n = rng.choice([5, 7, 9])
    deg = rng.choice([0, 1, 2])
    nco = (deg + 1) * (deg + 2) // 2
    stack = np.array([gauss((n, n), n // 2, n // 2, 1, 1.2) * (1 if i == 0 else .02) for i in range(nco)])
    k = {'POLNAXIS': 2, 'POLGRP1': 1, 'POLNAME1': 'X_IMAGE', 'POLZERO1': 20., 'POLSCAL1': 40., 'POLGRP2': 1, 'POLNAME2': 'Y_IMAGE', 'POLZERO2': 20., 'POLSCAL2': 40., 'POLNGRP': 1, 'POLDEG1': deg,
         'PSF_FWHM': 2.5, 'PSF_SAMP': rng.choice([.5, 1., 1.3]), 'PSFNAXIS': 3, 'PSFAXIS1': n, 'PSFAXIS2': n, 'PSFAXIS3': nco}
    data = stack.reshape(1, -1)
    rows = 1
    if spoil:
        for _ in range(rng.choice([1, 1, 2, 3])):
            q = rng.random()
            if q < .7:
                key = rng.choice(list(k))
                v = number(rng) if rng.random() < .6 else rng.choice([0, -1, 1, 2, 3, 4, 100, 30000, 10 ** 6])
                if isinstance(v, float) and not math.isfinite(v):
                    v = rng.choice(['nan', 'inf', 'X'])
                elif isinstance(k[key], int) and rng.random() < .7:
                    v = int(max(-2**63, min(2**63 - 1, v)))
                elif isinstance(k[key], str):
                    v = rng.choice(['X_IMAGE', 'Y_IMAGE', 'FOO', '', 'x' * 60])
                k[key] = v
            elif q < .8:
                k.pop(rng.choice(list(k)))
            elif q < .9:
                data = data[:, :rng.randint(0, data.shape[1])]
            elif q < .95:
                data = data * rng.choice([0, np.nan, np.inf, -1, 1e38])
            else:
                rows = rng.choice([0, 2])
                data = np.repeat(data, rows, 0) if rows else data[:0]
    if rows and not data.shape[1]:
        data = np.zeros((rows, 1))
    return hdu_bytes(None, bitpix=8) + bintable([('PSF_MASK', 'E', data.astype(np.float32))], rows, 'PSF_DATA', k)


def stack_psf(rng):
    """a PSF stack: image of stamps and a table of their places (spoiled)"""
    n = rng.choice([1, 2, 3, 5, 9, 20])
    st = rng.choice([1, 3, 5, 6, 0, -1, -5, 7, 100, 2 ** 31 - 1])
    img = np.abs(np.random.default_rng(rng.getrandbits(40)).normal(0, 1, (rng.choice([1, 10, 40]), rng.choice([1, 10, 40])))).astype(np.float32)
    rows = rng.choice([0, 1, 2, 30])
    cols = []
    for name in ('OBJECT_NUMBER', 'RA', 'DEC', 'X', 'Y', 'X_CENTER', 'Y_CENTER', 'MAG', 'FLUX'):
        if rng.random() < .02:
            continue
        v = np.array([rng.choice([0, 3., 5., 12., -5., 1e9, float('nan'), float('inf'), 39., 1e30]) if rng.random() < .4 else rng.uniform(2, 38) for _ in range(rows)])
        if name == 'OBJECT_NUMBER':
            cols.append((name, 'K', np.arange(rows)))
        else:
            cols.append((name, 'D', v))
    keys = {'STMPSIZE': st, 'PSFSCALE': rng.choice([1., 0., -1., 1e-30, 1e30]), 'SAMPLING': rng.choice([1., 0., 1e-9, 1e9, .5])}
    keys = {k: v for k, v in keys.items() if rng.random() < .95}
    return hdu_bytes(None, keys if rng.random() < .2 else {}, bitpix=8) + hdu_bytes(img, keys, first=False) + bintable(cols, rows, rng.choice(['POS', 'PSF', 'STARS']), keys if rng.random() < .5 else {})


# ------------------------------------------------------------------------------------------------ sections
@section('c23_image', 90, 1500)
def c23_image(c):
    """degenerate image content and geometry in every part of the processing"""
    rng = c.rng
    b = Base(c)
    what = rng.choice(['det', 'det', 'det', 'weight', 'meas', 'both', 'sizes'])
    if what in ('det', 'both'):
        b.w, b.h = size(rng)
        b.img = nasty_image(rng, b.w, b.h)
        if 'wt.fits' in b.files and rng.random() < .9:
            b.files['wt.fits'] = hdu_bytes(np.ones((b.h, b.w), np.float32), {})
        b.files['det.fits'] = hdu_bytes(b.img, b.keys)
    if what in ('weight', 'both'):
        wt = rng.choice(['rms', 'variance', 'weight', 'rms', 'variance', 'weight', 'rms', 'background'])
        b.o.update({'weight-image': 'wt.fits', 'weight-type': wt, 'weight-absolute': rng.random() < .7 and wt != 'background'})
        m = nasty_image(rng, b.w, b.h)
        if rng.random() < .6:
            m = np.abs(m)
        b.files['wt.fits'] = hdu_bytes(m, {})
        if rng.random() < .3:
            b.o['weight-threshold'] = numtext(rng)
        if rng.random() < .3:
            b.o['weight-scaling'] = numtext(rng)
    if what in ('meas', 'both') and 'm.fits' in b.files:
        w, h = size(rng)
        b.files['m.fits'] = hdu_bytes(nasty_image(rng, w, h), b.mkeys)
        if rng.random() < .5:
            b.files['mw.fits'] = hdu_bytes(nasty_image(rng, w, h), {})
            b.pyargs.update(weight_file="'mw.fits'", weight_type=repr(rng.choice(['rms', 'variance', 'weight', 'background'])), weight_absolute=str(rng.random() < .5))
    if what == 'sizes':
        # files that do not belong together
        if 'wt.fits' not in b.files:
            b.o.update({'weight-image': 'wt.fits', 'weight-type': 'rms', 'weight-absolute': True})
        w, h = size(rng)
        b.files['wt.fits'] = hdu_bytes(np.ones((h, w), np.float32), {})
        if 'm.fits' in b.files:
            w, h = size(rng)
            b.files['mw.fits'] = hdu_bytes(np.ones((h, w), np.float32), {})
            b.pyargs.update(weight_file="'mw.fits'", weight_type="'rms'", weight_absolute='True')
        if rng.random() < .5:
            w, h = size(rng)
            b.files['flag.fits'] = hdu_bytes(np.ones((h, w), np.int32), {}, bitpix=32)
            b.o.update({'flag-image-1': 'flag.fits', 'flag-type-1': rng.choice(['OR', 'AND', 'MIN', 'MAX', 'MOST'])})
            b.o['output-properties'] += ',ExternalFlags'
    b.go('image-' + what)


CARDS = [('CRPIX1', None), ('CRPIX2', None), ('CRVAL1', None), ('CRVAL2', None), ('CD1_1', None), ('CD1_2', None), ('CD2_1', None), ('CD2_2', None),
         ('CTYPE1', ['RA---TAN', 'RA---TPV', 'RA---SIN', 'RA---ZPN', 'RA---TAN-SIP', 'RA---AIT', 'GLON-CAR', 'LINEAR', '', 'DEC--TAN', 'RA---XXX', 'FREQ', 'RA---HPX', 'RA---CSC', 'RA---COP', 'WAVE-LOG']),
         ('CTYPE2', ['DEC--TAN', 'DEC--TPV', 'DEC--SIN', 'DEC--ZPN', 'DEC--TAN-SIP', 'DEC--AIT', 'GLAT-CAR', 'LINEAR', '', 'RA---TAN', 'DEC--XXX', 'VELO', 'DEC--HPX', 'DEC--CSC', 'DEC--COP']),
         ('CUNIT1', ['deg', 'rad', 'arcsec', 'm', 'foo', '']), ('CUNIT2', ['deg', 'arcmin', 'Hz', '']), ('WCSAXES', None), ('EQUINOX', None), ('RADESYS', ['FK5', 'ICRS', 'XX']),
         ('LONPOLE', None), ('LATPOLE', None), ('PV1_0', None), ('PV1_1', None), ('PV1_2', None), ('PV2_1', None), ('PV2_2', None), ('PV1_39', None), ('PV1_41', None), ('PV2_99', None), ('PV1_-1', None),
         ('A_ORDER', None), ('B_ORDER', None), ('A_0_2', None), ('A_2_0', None), ('B_0_2', None), ('AP_ORDER', None), ('BP_ORDER', None), ('A_9_9', None), ('CROTA2', None), ('CDELT1', None), ('CDELT2', None), ('PC1_1', None),
         ('PC1_2', None), ('CRDER1', None), ('CD3_3', None), ('CTYPE3', ['FREQ', 'RA---TAN', '']), ('CPDIS1', ['LOOKUP', 'TPD', 'Polynomial']), ('DP1', ['NAXES: 2', 'X: y', '']), ('D2IMDIS1', ['LOOKUP']),
         ('BSCALE', None), ('BZERO', None), ('BLANK', None), ('GAIN', None), ('SATURATE', None), ('FLXSCALE', None), ('EXTNAME', ['', 'X', 'x' * 66]), ('INHERIT', ['T']), ('OBJECT', ['', "it''s"]),
         ('PS1_0', ['a', '']), ('TELESCOP', ['']), ('DATE-OBS', ['2020-01-01', 'never', '']), ('MJD-OBS', None), ('WCSNAME', ['a']), ('ZIMAGE', ['T']), ('CHECKSUM', ['0']), ('DATASUM', ['xyz'])]
RAW = ['HIERARCH ESO A B C = 5', "HIERARCH X = 'unclosed", 'COMMENT ' + '\xe9' * 60, 'HISTORY', 'CONTINUE  \'x\'', '=', 'A=', "KEY     = 'a", 'KEY     = 1e', 'key     = 3', 'K y     = 3', 'KEY     = (1, 2)', 'KEY     = 1E5000', 'KEY     =' + ' ' * 70, '        = 3',
       "LONG    = 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa&'", "CONTINUE  'bbbbbb&'", 'KEY     = T / comment', 'KEY     = X', 'KEY     = --5', 'KEY     = 0x10', '\0' * 20, 'END', 'END     = 3', 'CRPIX1  = ', "CRVAL1  = 'abc'", 'CTYPE1  = 5', 'CD1_1   = T']


def junk_cards(rng, n):
    res = []
    for _ in range(n):
        k, v = rng.choice(CARDS)
        if rng.random() < .15:
            res.append(rng.choice(RAW))
        elif rng.random() < .1:
            res.append(f'{k:8s}= {rng.choice(TEXT)[:60]}')
        elif v is None:
            x = number(rng)
            res.append(f'{k:8s}= {x if not isinstance(x, float) else repr(x).upper()}')
        else:
            res.append(card(k, rng.choice(v)))
    return [''.join(q if ord(q) < 256 else '?' for q in s)[:80] for s in res]


@section('c23_header', 110, 2500)
def c23_header(c):
    """junk in the header of an image or in a .head file"""
    rng = c.rng
    b = Base(c)
    n = rng.choice([1, 1, 2, 4, 12])
    where = rng.choice(['det', 'det', 'meas', 'head', 'head', 'mhead', 'weight'])
    if where in ('meas', 'mhead') and 'm.fits' not in b.files:
        where = 'det'
    if where == 'weight' and 'wt.fits' not in b.files:
        where = 'det'
    f, img, keys = {'d': ('det.fits', b.img, b.keys), 'h': ('det.fits', b.img, b.keys), 'm': ('m.fits', getattr(b, 'mimg', None), getattr(b, 'mkeys', None)), 'w': ('wt.fits', getattr(b, 'wt', None), {})}[where[0]]
    cards = junk_cards(rng, n)
    keys = dict(keys)
    for k in list(keys):
        if rng.random() < .05 or any(q.startswith(k.ljust(8)) for q in cards) and rng.random() < .7:
            del keys[k]
    if 'head' in where:
        text = [card(k, v).rstrip() for k, v in keys.items()] + [q.rstrip() for q in cards]
        rng.shuffle(text)
        if rng.random() < .7:
            text.append('END')
        if rng.random() < .2:
            text += [card(k, v) for k, v in keys.items()] + junk_cards(rng, 2)
        s = rng.choice(['\n', '\n', '\n', '\r\n', '\r', '\n\n']).join(text) + rng.choice(['\n', ''])
        b.files[f.replace('.fits', '.head')] = s.encode('latin1')
    else:
        if rng.random() < .3:
            bp = rng.choice([8, 16, 32, -64])
            b.files[f] = hdu_bytes(np.clip(np.nan_to_num(img), 0, 200), keys, bitpix=bp, extra_cards=cards)
        else:
            b.files[f] = hdu_bytes(img, keys, extra_cards=cards)
    b.go('header-' + where)
    c.sample('; '.join(cards)[:200])


@section('c23_bytes', 110, 3000)
def c23_bytes(c):
    """bytes of a valid input file changed, removed, repeated"""
    rng = c.rng
    b = Base(c, parts=('weight', 'flag', 'assoc', 'psf', 'py', 'head'))
    if rng.random() < .3:
        b.files['flag.fits'] = hdu_bytes((np.random.default_rng(5).uniform(size=b.img.shape) < .1).astype(np.int32), {}, bitpix=32)
        b.o.update({'flag-image-1': 'flag.fits', 'flag-type-1': 'OR'})
        b.o['output-properties'] += ',ExternalFlags'
    f = rng.choice(list(b.files))
    d = bytearray(b.files[f])
    isfits = f.endswith('.fits')
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = rng.randrange(8)
        end = len(d) if not isfits or rng.random() < .2 else d.find(b'END' + b' ' * 40) + 3
        p = rng.randrange(max(1, min(end, len(d))))
        if k == 0:
            d[p:p + 1] = bytes([rng.randrange(256)])
        elif k == 1:
            del d[p:]
        elif k == 2:
            del d[p:p + rng.choice([1, 80, 2880])]
        elif k == 3:
            d[p:p] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 80, 2880])))
        elif k == 4 and isfits:
            # one digit of a keyword
            q = [i for i in range(min(end, len(d))) if 48 <= d[i] <= 57]
            if q:
                d[rng.choice(q)] = rng.choice(b'0123456789-.eE ')
        elif k == 5 and isfits:
            kw = rng.choice([b'BITPIX', b'NAXIS ', b'NAXIS1', b'NAXIS2', b'PCOUNT', b'TFIELDS', b'TFORM1', b'PSFAXIS1', b'POLNAXIS', b'GCOUNT', b'SIMPLE'])
            i = d.find(kw)
            if i >= 0:
                d[i + 10:i + 30] = str(rng.choice([0, 1, -1, 2, 3, 7, 99, 1000, 100000, 2 ** 31 - 1, 2 ** 31, 2 ** 40, -32, 8, 16, 'X', "'1E'", 'T'])).rjust(20).encode()
        elif k == 6:
            d[p:p + rng.randint(1, 200)] = bytes([rng.choice([0, 32, 255])]) * rng.randint(1, 200)
        else:
            q = rng.randrange(len(d) + 1)
            d[p:p] = d[q:q + rng.choice([80, 2880, 1])]
        if not d:
            break
    b.files[f] = bytes(d)
    b.go('bytes-' + f.split('.')[0])


@section('c23_psf', 60, 1500)
def c23_psf(c):
    rng = c.rng
    b = Base(c, parts=('py', 'checks', 'weight'))
    k = rng.random()
    b.o.pop('psf-fwhm', None)
    if k < .45:
        f = psfex(rng, True)
    elif k < .75:
        n = rng.choice([1, 2, 3, 4, 7, 8, 21])
        a = gauss((n, n if rng.random() < .8 else rng.randint(1, 9)), n // 2, n // 2, 1, 1.2)
        q = rng.randrange(6)
        if q == 0:
            a = a * rng.choice([0, -1, np.nan, 1e38, np.inf])
        elif q == 1:
            a[rng.randrange(a.shape[0]), rng.randrange(a.shape[1])] = rng.choice([np.nan, np.inf, 1e38, -1e9])
        keys = {}
        if rng.random() < .8:
            v = rng.choice([1., .5, 2., 0, -1, 1e-3, 1e-30, 1e3, 1e30, 'x', 3, .1])
            keys['SAMPLING'] = v
        q = rng.random()
        f = hdu_bytes(a if q < .9 else np.stack([a, a]), keys)
        if q > .8 and q < .9:
            f = hdu_bytes(None, bitpix=8) + hdu_bytes(a, keys, first=False)
    else:
        f = stack_psf(rng)
    b.files['psf.fits'] = f
    if 'm.fits' in b.files and rng.random() < .7:
        b.pyargs['psf_file'] = "'psf.fits'"
        if rng.random() < .3:
            b.pyargs['psf_hdu'] = str(rng.choice([0, 1, 2, 3, -1, 100]))
        b.pyextra.append('x = FreeParameter(lambda o: o.centroid_x, Range(lambda v, o: (v - 3, v + 3), RangeType.LINEAR)); add_model(g, PointSourceModel(x, ConstantParameter(lambda o: o.centroid_y), ConstantParameter(lambda o: o.isophotal_flux))); add_output_column("px", x); set_max_iterations(5)')
        if 'FlexibleModelFitting' not in b.o['output-properties']:
            b.o['output-properties'] += ',FlexibleModelFitting'
    if 'm.fits' not in b.files or rng.random() < .5:
        b.o['psf-filename'] = 'psf.fits'
        b.o['check-image-psf'] = 'chk-psf.fits'
    b.go('psf')


@section('c23_catalog', 40, 800)
def c23_catalog(c):
    rng = c.rng
    b = Base(c, parts=('py', 'weight', 'checks'))
    n = rng.choice([0, 1, 2, 5, 120, 500])
    ncol = rng.randint(1, 6)
    world = rng.random() < .5
    nasty = rng.random() < .8

    def val(j):
        if nasty and rng.random() < .15:
            return number(rng)
        return rng.uniform(-5, 60) if not world else (30 + rng.gauss(0, .002) if j == 0 else -20 + rng.gauss(0, .002) if j == 1 else rng.gauss(0, 100))
    cols = [[val(j) for _ in range(n)] for j in range(ncol)]
    if rng.random() < .5:
        tp = [rng.choice('DDDEJIK') for _ in cols]
        cc = []
        for i, (t, q) in enumerate(zip(tp, cols)):
            a = np.array(q, float)
            if t in 'IJK':
                lim = {'I': 2 ** 15 - 1, 'J': 2 ** 31 - 1, 'K': 2 ** 62}[t]
                a = np.clip(np.nan_to_num(a), -lim, lim).astype(np.int64)
            if rng.random() < .05:
                a = np.stack([a, a], 1) if n else a
            with np.errstate(over='ignore'):
                cc.append((f'C{i}', t, a.astype(np.float32) if t == 'E' else a))
        b.files['assoc.dat'] = hdu_bytes(None, bitpix=8) + bintable(cc, n)
    else:
        rows = [' '.join(repr(v) if isinstance(v, float) else str(v) for v in r) for r in zip(*cols)]
        if rng.random() < .3 and rows:
            rows[rng.randrange(len(rows))] = rng.choice(['# comment', '', 'x y z', '1 2', '\0', 'nan ' * ncol, '1e400 ' * ncol])
        b.files['assoc.dat'] = ('\n'.join(rows) + '\n').encode('latin1')
    col = lambda: rng.randint(1, ncol) if rng.random() < .9 else rng.choice([0, -1, 99, 2 ** 31])
    b.o.update({'assoc-catalog': 'assoc.dat', 'assoc-columns': ','.join(str(col()) for _ in range(rng.choice([2, 2, 2, 3]))), 'assoc-coord-type': 'WORLD' if world else 'PIXEL',
                'assoc-mode': rng.choice('FIRST NEAREST MEAN MAG_MEAN SUM MAG_SUM MIN MAX'.split()), 'assoc-radius': rng.choice([2, 1000, 1e9, 0, -1, 1e-9, 5])})
    if rng.random() < .7:
        b.o['assoc-copy'] = ','.join(str(col()) for _ in range(rng.choice([1, 2, 5])))
    if rng.random() < .3:
        b.o['assoc-filter'] = rng.choice(['MATCHED', 'UNMATCHED', 'ALL'])
    if rng.random() < .3:
        b.o['assoc-group-id'] = col()
        b.o['grouping-algorithm'] = 'ASSOC'
    if rng.random() < .4:
        b.o[rng.choice(['assoc-source-sizes', 'assoc-source-half-widths', 'assoc-source-half-heights'])] = col()
    if 'AssocMode' not in b.o['output-properties']:
        b.o['output-properties'] += ',AssocMode'
    if rng.random() < .45 and 'm.fits' in b.files:
        b.o['segmentation-algorithm'] = 'ASSOC'
        for k in ('detection-image', 'weight-image', 'weight-type', 'weight-absolute', 'background-value'):
            b.o.pop(k, None)
        keep = 'AssocMode SourceIDs WorldCentroid AperturePhotometry FlexibleModelFitting SourceFlags PixelCentroid GroupInfo HduNumber Vignet GroupStamp'.split()
        b.o['output-properties'] = ','.join(p for p in b.o['output-properties'].split(',') if p in keep)
        if not world:
            b.o['assoc-coord-type'] = rng.choice(['WORLD', 'PIXEL'])
    b.go('catalog')


OPTIONS = ['background-cell-size', 'smoothing-box-size', 'background-value', 'detection-threshold', 'segmentation-algorithm', 'segmentation-use-filtering', 'segmentation-filter', 'segmentation-lutz-window-size',
           'segmentation-bfs-max-delta', 'detection-minimum-area', 'use-attractors-partition', 'partition-multithreshold', 'partition-threshold-count', 'partition-minimum-area', 'partition-minimum-contrast', 'core-threshold-value',
           'core-minimum-area', 'partition-corethreshold', 'use-cleaning', 'cleaning-minimum-area', 'grouping-algorithm', 'grouping-hard-limit', 'grouping-moffat-threshold', 'grouping-moffat-max-distance', 'thread-count', 'thread-max-queue-size', 'tile-memory-limit',
           'tile-size', 'output-catalog-format', 'output-properties', 'output-flush-size', 'output-flush-sorted', 'weight-type', 'weight-scaling', 'weight-threshold', 'weight-absolute', 'weight-use-symmetry', 'psf-fwhm',
           'psf-pixel-sampling', 'magnitude-zero-point', 'auto-kron-factor', 'auto-kron-min-radius', 'flux-fraction', 'flux-growth-samples', 'vignet-size', 'vignet-default-pixval', 'rng-seed', 'sampling-scale-factor',
           'sampling-max-fit-size', 'detection-image-gain', 'detection-image-flux-scale', 'detection-image-saturation', 'detection-image-interpolation', 'detection-image-interpolation-gap', 'assoc-radius', 'assoc-columns',
           'assoc-mode', 'assoc-copy', 'assoc-default-pixel-size', 'property-column-mapping', 'log-level', 'python-arg', 'plugin', 'plugin-directory', 'config-file']
MILD = {'background-cell-size': ['1', '2', '3', '5,7', '1,1', '1000', '16,', ',16', '-5', '0', '4,0'], 'smoothing-box-size': ['0', '1', '2', '50', '3,5', '-1'], 'vignet-size': ['1', '0', '1,1', '200', '-1', '3,400', '0,5', '100,1', '2'],
        'flux-fraction': ['0', '1', '0,1', '2', '-1', '.5,.5,.5', '.1,.9'], 'flux-growth-samples': ['1', '2', '0', '-1', '300', '5'], 'tile-size': ['1', '2', '0', '-1', '5000', '100000'], 'tile-memory-limit': ['1', '-1', '0'],
        'thread-count': ['0', '1', '64', '-1', '300'], 'thread-max-queue-size': ['1', '0', '-1'], 'segmentation-lutz-window-size': ['1', '2', '5', '0', '-3', '1000000'], 'segmentation-bfs-max-delta': ['0', '1', '-1', '10'],
        'partition-threshold-count': ['0', '1', '2', '-1', '1000'], 'partition-minimum-area': ['0', '1', '-5', '1000000'], 'partition-minimum-contrast': ['0', '1', '-1', '2'], 'detection-minimum-area': ['0', '1', '-1', '1000000'],
        'detection-threshold': ['0', '-1', '1e-9', '1e9', '100'], 'auto-kron-factor': ['0', '-1', '1000', '1e9', '1e-9', '50'], 'auto-kron-min-radius': ['0', '-1', '1000', '1e9', '50'], 'grouping-hard-limit': ['0', '1', '-1'],
        'psf-fwhm': ['0', '-1', '.01', '40'], 'psf-pixel-sampling': ['0', '-1', '5', '100', '.2', '.05'], 'detection-image-interpolation-gap': ['0', '-1', '1', '1000'], 'grouping-moffat-max-distance': ['0', '-1', '1e9', '1'],
        'detection-image-gain': ['0', '-1', '1e-30', '1e30'], 'detection-image-flux-scale': ['0', '-1', '1e-30', '1e30'], 'detection-image-saturation': ['0', '-1', '1'], 'segmentation-algorithm': ['LUTZ', 'BFS', 'ASSOC', 'ML', 'lutz'],
        'grouping-algorithm': ['none', 'overlap', 'split', 'moffat', 'ASSOC', 'assoc', 'x'], 'output-catalog-format': ['FITS', 'ASCII', 'FITS_LDAC', 'fits', 'x'], 'sampling-scale-factor': ['0', '1', '-1', '1e9', '1e-9'], 'sampling-max-fit-size': ['0', '1', '-1', '5'],
        'output-flush-size': ['0', '1', '-1', '3'], 'cleaning-minimum-area': ['0', '-1', '1000'], 'core-threshold-value': ['0', '-1', '1', '1e9'], 'core-minimum-area': ['0', '-1', '1'], 'weight-threshold': ['0', '-1', '1e30', '1'], 'weight-scaling': ['0', '-1', '1e30', '1e-30', '2']}


def kernel_text(rng):
    head = rng.choice(['CONV NORM', 'CONV NONORM', 'CONV', 'NORM', '', 'CONV FOO', 'conv norm'])
    n, m = rng.randint(0, 7), rng.randint(0, 7)
    rows = [' '.join(numtext(rng) if rng.random() < .1 else f'{rng.uniform(-1, 2):.3f}' for _ in range(m if rng.random() < .9 else rng.randint(0, 9))) for _ in range(n)]
    return rng.choice(['', '# c\n']) + head + '\n' + '\n'.join(rows) + rng.choice(['\n', '', '\n\n', '\n# x\n'])


@section('c23_options', 130, 3000)
def c23_options(c):
    """extreme, malformed and contradictory settings"""
    rng = c.rng
    b = Base(c)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.choice(OPTIONS)
        if k in ('psf-fwhm', 'psf-pixel-sampling'):
            b.o.pop('psf-filename', None)
            b.o.update({'psf-fwhm': 2, 'psf-pixel-sampling': 1})
        if k.startswith('core-') or k == 'partition-corethreshold':
            b.o.update({'core-threshold-value': 5, 'core-minimum-area': 2, 'partition-corethreshold': True})
        if k.startswith(('vignet', 'flux-', 'auto-')):
            b.o['output-properties'] += ''.join(',' + p for p in ('Vignet', 'FluxRadius', 'GrowthCurve', 'AutoPhotometry') if p not in b.o['output-properties'])
        if k == 'segmentation-filter':
            b.o[k] = 'k.conv' if rng.random() < .5 else 'k.fits'
            b.files['k.conv'] = kernel_text(rng).encode('latin1')
            h, w = rng.randint(1, 9), rng.randint(1, 9)
            b.files['k.fits'] = hdu_bytes(nasty_image(rng, w, h), {})
            continue
        b.o[k] = rng.choice(MILD[k]) if k in MILD and rng.random() < .7 else numtext(rng)
        if '\0' in str(b.o[k]):
            b.o[k] = 'x'
    if rng.random() < .2:
        with open(c.dir + '/sex.conf', 'w', encoding='latin1') as f:
            for _ in range(rng.randint(1, 5)):
                f.write(f"{rng.choice(OPTIONS)}{rng.choice(['=', ' = ', ' ', ''])}{numtext(rng)}\n")
        b.o['config-file'] = 'sex.conf'
    b.go('options')


PYBAD = ["FreeParameter(1., Range((0, 0), RangeType.LINEAR))", "FreeParameter(1., Range((5, -5), RangeType.LINEAR))", "FreeParameter(0., Range((0, 1), RangeType.EXPONENTIAL))", "FreeParameter(float('nan'), Range((-1, 1), RangeType.LINEAR))",
         "FreeParameter(float('inf'))", "FreeParameter(1., Unbounded(0))", "FreeParameter(1., Unbounded(float('nan')))", "FreeParameter(lambda o: 'x')", "FreeParameter(lambda o: None)", "FreeParameter(lambda o: 1/0)", "FreeParameter(lambda o: o.nothing)",
         "FreeParameter(1e300, Range((0, 1e308), RangeType.LINEAR))", "ConstantParameter(float('nan'))", "ConstantParameter(lambda o: [])", "ConstantParameter(1e300)", "DependentParameter(lambda a: a / 0, x0)", "DependentParameter(lambda a: None, x0)",
         "DependentParameter(lambda a, b: a, x0)", "DependentParameter(lambda: 1)", "FreeParameter(1., Range(lambda v, o: (v,), RangeType.LINEAR))", "FreeParameter(1., Range(lambda v, o: None, RangeType.LINEAR))", "FreeParameter(10., Range((0, 1), RangeType.LINEAR))",
         "FreeParameter(1., Range((-5, -1), RangeType.EXPONENTIAL))", "DependentParameter(lambda a: a, FreeParameter(2.))", "FreeParameter(-1e30)", "ConstantParameter(-3)", "ConstantParameter(0)", "ConstantParameter(1e9)", "FreeParameter(5.)", "None", "5", "'x'", "x0"]
PYLINE = ["set_max_iterations(0)", "set_max_iterations(-1)", "set_engine('levmar')", "set_engine('gsl')", "set_engine('nothing')", "use_iterative_fitting(False)", "use_iterative_fitting(True)", "set_meta_iterations(0)", "set_meta_iterations(-3)", "set_deblend_factor(0)",
          "set_deblend_factor(-1)", "set_deblend_factor(5)", "set_meta_iteration_stop(0)", "set_modified_chi_squared_scale(0)", "set_modified_chi_squared_scale(-1)", "add_prior(x0, 1, 0)", "add_prior(x0, lambda o: o.centroid_x, 1)", "add_prior(x0, float('nan'), 1)",
          "add_prior(x0, lambda o: None, 1)", "add_output_column('', x0)", "add_output_column('a', [])", "add_output_column('aper', x0)", "add_output_column('q', ConstantParameter(1))", "add_model(g, ConstantModel(x0))", "add_model(g, None)", "add_model(None, ConstantModel(x0))",
          "add_aperture_photometry(im, [])", "add_aperture_photometry(im, [0])", "add_aperture_photometry(im, [-3])", "add_aperture_photometry(im, [1e9])", "add_aperture_photometry(im, [float('nan')])", "add_aperture_photometry(im, ['x'])", "add_aperture_photometry(None, [3])",
          "g.split(ByKeyword('NOPE'))", "g.split(ByPattern('NOPE', '.*'))", "g.split(ByKeyword('CTYPE1'))", "set_coordinate_system(im)", "import os; os._exit(0) if False else None", "raise RuntimeError('x')", "raise SystemExit(3)", "x = 1 +", "import nothing", "1/0",
          "im2 = MeasurementImage('none.fits')", "im2 = MeasurementImage('m.fits', image_hdu=5)", "im2 = MeasurementImage('m.fits', image_hdu=-1)", "g2 = MeasurementGroup(ImageGroup(images=[]))", "fix = load_fits_image('m.fits')", "fix = load_fits_images([])", "f2 = load_fits_data_cube('m.fits')",
          "set_window_type(WindowType.ROTATED_ELLIPSE, 0)", "set_window_type(WindowType.ALIGNED_ELLIPSE, 3)", "set_window_type(WindowType.DISK_MIN)", "set_window_type(WindowType.SQUARE_AREA)"]
MODELS = ["PointSourceModel({}, {}, {})", "ConstantModel({})", "SersicModel({}, {}, {}, {}, {}, {}, {})", "ExponentialModel({}, {}, {}, {}, {}, {})", "DeVaucouleursModel({}, {}, {}, {}, {}, {})"]


@section('c23_python', 90, 2000)
def c23_python(c):
    """Python configurations with odd parameters, models, groups and errors of their own"""
    rng = c.rng
    for _ in range(20):
        b = Base(c, parts=('weight', 'py', 'checks', 'assoc'))
        if 'm.fits' in b.files:
            break
    else:
        return
    b.o.update({'psf-fwhm': 2.5, 'psf-pixel-sampling': 1})
    ok = ["FreeParameter(lambda o: o.centroid_x, Range(lambda v, o: (v - 3, v + 3), RangeType.LINEAR))", "FreeParameter(lambda o: o.centroid_y, Range(lambda v, o: (v - 3, v + 3), RangeType.LINEAR))",
          "FreeParameter(lambda o: o.isophotal_flux, Range(lambda v, o: (abs(v) * .01 + 1e-3, abs(v) * 100 + 1), RangeType.EXPONENTIAL))", "FreeParameter(lambda o: o.radius, Range(lambda v, o: (.01, 30), RangeType.EXPONENTIAL))",
          "FreeParameter(.6, Range((.01, 1), RangeType.LINEAR))", "ConstantParameter(lambda o: o.angle)", "FreeParameter(2., Range((.3, 8), RangeType.LINEAR))"]
    L = b.pyextra
    L.append('x0 = FreeParameter(lambda o: 1., Range((-10, 10), RangeType.LINEAR))')
    L.append('set_max_iterations(5)')
    names = []
    for _ in range(rng.choice([1, 1, 2])):
        m = rng.choice(MODELS)
        n = m.count('{}')
        a = ok[:n] if n != 1 else ['x0']
        spoil = rng.random() < .8
        a = list(a)
        if spoil:
            for _ in range(rng.choice([1, 1, 2])):
                a[rng.randrange(n)] = rng.choice(PYBAD)
        aa = []
        for q in a:
            L.append(f'p{len(names)} = {q}')
            aa.append(f'p{len(names)}')
            names.append(f'p{len(names)}')
        L.append(f'add_model(g, {m.format(*aa)})')
    for q in names:
        if rng.random() < .5:
            L.append(f"add_output_column('c{q}', {q})")
    for _ in range(rng.choice([0, 1, 1, 2])):
        L.append(rng.choice(PYLINE))
    if rng.random() < .2:
        rng.shuffle(L)
    b.fit = False
    if 'FlexibleModelFitting' not in b.o['output-properties']:
        b.o['output-properties'] += ',FlexibleModelFitting'
    for k in ('model-fitting', 'residual'):
        if rng.random() < .5:
            b.o['check-image-' + k] = f'chk-{k}.fits'
    if rng.random() < .4:
        k = rng.choice(['gain', 'saturation', 'flux_scale', 'weight_scaling', 'weight_threshold', 'constant_background', 'image_hdu', 'weight_type', 'psf_renormalize', 'psf_file', 'weight_file', 'interpolation_gap', 'is_background_constant'])
        b.pyargs[k] = rng.choice(['0', '-1', '1e30', "float('nan')", "'x'", 'None', '3', "float('inf')"])
    b.go('python', timeout=90)


if __name__ == '__main__':
    sys.exit(main())
