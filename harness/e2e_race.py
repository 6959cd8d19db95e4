"""C21: the whole program under ThreadSanitizer: no two threads may use the same memory without order"""
import os
import re
import sys
import numpy as np
from e2e_main import section, main
import sepp
from sepp import *
from e2e import opts
from e2e_hostile import ALL, CHECKNAMES, psfex

TSAN = ('halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=5:report_signal_unsafe=0:report_thread_leaks=0:'
        f'suppressions={VERIF}/harness/tsan.supp')


def repo_frames(stack):
    res = []
    for line in stack.splitlines():
        m = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ in )?(.*)$', line)
        if m and (REPO + '/') in m.group(1):
            res.append(re.split(r'[(<]', m.group(1))[0].strip().split(' ')[-1] or '?')
    return res


def race_reports(err):
    """-> list of (key, text) for each report with the repository's code in it"""
    out = []
    for blk in err.split('=================='):
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', blk)
        if not m:
            continue
        tops = []
        for s in re.split(r'\n\s*\n', blk)[:6]:
            if re.search(r'(Read|Write|read|write) of size|acquired here|Cycle', s):
                f = repo_frames(s)
                if f:
                    tops.append(f[0])
        if tops:
            out.append((f'tsan:{m.group(1).strip()}:' + '|'.join(sorted(set(tops[:2]))), blk.strip()))
    return out


def stack(rng, w, h):
    """a PSF stack: stamps side by side and the table of their positions"""
    n, st = rng.randint(2, 12), 9
    img = np.concatenate([gauss((st, st), st // 2, st // 2, 1, rng.uniform(1, 1.6)) for _ in range(n)], axis=1)
    gx, gy = [i * st + st // 2 + 1 for i in range(n)], [st // 2 + 1] * n
    cols = [('OBJECT_NUMBER', 'K', np.arange(n)), ('GRIDX', 'D', np.array(gx)), ('GRIDY', 'D', np.array(gy)), ('RA', 'D', np.ones(n)), ('DEC', 'D', np.ones(n)),
            ('X', 'D', np.array([rng.uniform(0, w) for _ in range(n)])), ('Y', 'D', np.array([rng.uniform(0, h) for _ in range(n)]))]
    return hdu_bytes(None, {}, bitpix=8) + hdu_bytes(img.astype(np.float32), {'STMPSIZE': st, 'SAMPLING': 1.0}, first=False) + bintable(cols, n, 'POS', {})


def world(c, kind):
    """a set-up that gives every thread something to do"""
    rng = c.rng
    d = c.dir
    w, h = (rng.randint(50, 90), rng.randint(50, 90)) if kind == 'fit' else (rng.randint(60, 130), rng.randint(60, 130))
    img, src = scene(rng, w, h, rng.randint(10, 20) if kind == 'fit' else rng.randint(15, 45), 1.0, 0.0, fmin=400, fmax=2e4, smin=1, smax=2.5)
    keys = tan_wcs(w, h, rot=rng.uniform(0, 6))
    tile = rng.choice([8, 16, 32, 64])
    o = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.fits', 'thread-count': rng.choice([2, 4, 7, 8]), 'tile-size': tile,
         'tile-memory-limit': rng.choice([1, 1, 64]), 'log-level': 'ERROR'}
    hdus = [(img, keys)]
    if rng.random() < .25:
        hdus.append((scene(rng, w, h, 12, 1.0, 0.0, fmin=400, fmax=2e4, smin=1, smax=2.5)[0], keys))
    write_fits(f'{d}/det.fits', hdus)
    if rng.random() < .5:
        o['background-value'] = 0
    else:
        o['background-cell-size'] = rng.choice([16, 32])
    o['segmentation-algorithm'] = rng.choice(['LUTZ', 'BFS'])
    if rng.random() < .4:
        o['segmentation-use-filtering'] = 0
    if rng.random() < .5:
        o['partition-multithreshold'] = True
    if rng.random() < .3:
        o['use-attractors-partition'] = True
    if rng.random() < .4:
        o['use-cleaning'] = True
    o['grouping-algorithm'] = rng.choice(['none', 'overlap', 'split', 'moffat'])
    if rng.random() < .3:
        o['output-flush-size'] = rng.choice([1, 3, 10])
    if rng.random() < .3:
        o['thread-max-queue-size'] = rng.choice([1, 2, 10])
    if rng.random() < .3:
        o['output-flush-sorted'] = 0
    if rng.random() < .4:
        wt = np.random.default_rng(rng.getrandbits(40)).uniform(.5, 1.5, (h, w)).astype(np.float32)
        write_fits(f'{d}/wt.fits', [(wt, {})] * len(hdus))
        o.update({'weight-image': 'wt.fits', 'weight-type': rng.choice(['rms', 'variance', 'weight']), 'weight-absolute': True})
    props = [p for p in ALL if p != 'AssocMode']
    if kind != 'plain':
        props.append('AperturePhotometry')
    psf = kind == 'fit' or rng.random() < .5
    if psf:
        if rng.random() < .4:
            o.update({'psf-fwhm': 2.5, 'psf-pixel-sampling': 1})
        else:
            o['psf-filename'] = 'psf.fits'
            kk = rng.random()
            with open(f'{d}/psf.fits', 'wb') as f:
                f.write(psfex(rng) if kk < .5 else stack(rng, w, h) if kk < .8 else hdu_bytes(gauss((9, 9), 4, 4, 1, 1.5), {'SAMPLING': 1.0}))
    if rng.random() < .4:
        cat = [(rng.uniform(0, w), rng.uniform(0, h), rng.gauss(0, 10)) for _ in range(200)]
        with open(f'{d}/assoc.dat', 'w') as f:
            f.write('# x y v\n' + '\n'.join(' '.join(map(repr, q)) for q in cat) + '\n')
        o.update({'assoc-catalog': 'assoc.dat', 'assoc-columns': '1,2', 'assoc-copy': '3', 'assoc-mode': rng.choice(['NEAREST', 'MEAN', 'SUM'])})
        props.append('AssocMode')
    if rng.random() < .3:
        fl = (np.random.default_rng(rng.getrandbits(40)).uniform(size=(h, w)) < .02).astype(np.int32) * 5
        write_fits(f'{d}/flag.fits', [(fl, {}, 32)] * len(hdus))
        o.update({'flag-image-A': 'flag.fits'})
        props.append('ExternalFlags')
    if kind != 'plain':
        n = rng.randint(1, 3) if kind == 'fit' else rng.randint(4, 8) if kind == 'checks' else rng.randint(2, 5)
        L = ['from sourcextractor.config import *']
        ims = []
        for i in range(n):
            dx, dy = rng.randint(-6, 6), rng.randint(-6, 6)
            m = np.roll(img, (dy, dx), (0, 1))
            k = dict(keys, CRPIX1=keys['CRPIX1'] + dx, CRPIX2=keys['CRPIX2'] + dy)
            write_fits(f'{d}/m{i}.fits', [(m, k)])
            extra = ", psf_file='psf.fits'" if os.path.exists(f'{d}/psf.fits') else ''
            if rng.random() < .4:
                extra += ', constant_background=0.0'
            L.append(f"im{i} = MeasurementImage('m{i}.fits', gain=2.0, saturation=50000.0{extra})")
            ims.append(f'im{i}')
        L += [f"g = MeasurementGroup(ImageGroup(images=[{', '.join(ims)}]))",
              f'ap = add_aperture_photometry([i for i in g], {[round(rng.uniform(3, 25), 1) for _ in range(rng.randint(1, 4))]!r})', "add_output_column('aper', ap)"]
        if kind == 'fit':
            props.append('FlexibleModelFitting')
            L += ['set_max_iterations(%d)' % rng.choice([3, 8]), 'x, y = get_pos_parameters()',
                  'f = get_flux_parameter()']
            if rng.random() < .5:
                L += ['add_model(g, PointSourceModel(x, y, f))']
            else:
                L += ['r = FreeParameter(lambda o: o.radius, Range(lambda v, o: (.01, 30), RangeType.EXPONENTIAL))',
                      'e = DependentParameter(lambda a: .5 + a * 0, r)', 'add_prior(r, lambda o: o.radius, 2.0)',
                      'add_model(g, ExponentialModel(x, y, f, r, ConstantParameter(.7), ConstantParameter(lambda o: o.angle)))', "add_output_column('e', e)"]
            L += ["add_output_column('fx', x)", "add_output_column('ff', f)"]
            if rng.random() < .4:
                L += ['use_iterative_fitting(False)']
            if rng.random() < .7:
                o['grouping-algorithm'] = 'none'
        with open(f'{d}/m.py', 'w') as f:
            f.write('\n'.join(L) + '\n')
        o['python-config-file'] = 'm.py'
    for k in CHECKNAMES:
        if (rng.random() < .6 or kind == 'checks') and (k != 'psf' or psf) and (k != 'model-fitting' or kind == 'fit'):
            o['check-image-' + k] = f'chk-{k}.fits'
    if kind == 'fit':
        props = [p for p in props if rng.random() < .6 or p == 'FlexibleModelFitting']
        if rng.random() < .2:
            props.append('MoffatModelFitting')
    if kind == 'checks':
        # the first sources of all threads arrive together and make the check images
        props = ['PixelCentroid', 'AutoPhotometry', 'AperturePhotometry', 'SourceIDs', 'SourceFlags']
        o.update({'thread-count': 8, 'tile-size': 64, 'tile-memory-limit': 64, 'grouping-algorithm': 'none', 'background-value': 0})
        o.pop('background-cell-size', None)
    rng.shuffle(props)
    o['output-properties'] = ','.join(dict.fromkeys(props))
    return o, len(src)


def go(c, kind):
    o, n = world(c, kind)
    r = run(opts(o), c.dir, timeout=90 if kind == 'fit' else 150, attempts=1 if kind == 'fit' else 2, env_extra={'TSAN_OPTIONS': TSAN})
    c._s['evaluations'] += 1
    c.sig(sorted(o.items()))
    if r.timeout:
        c.counter('not finished in time')
        if kind != 'fit':
            c.fail('no-end', f'no end within the time limit, twice: {r.cmd}')
        return
    if r.rc:
        # everything asked for is valid: one thread got in the way of another
        c.fail('threads-' + (crash_key(r) if r.crashed else 'failed'), f'exit {r.rc}: {r.cmd}\n{r.err[-3000:]}')
        if os.environ.get('VH_REASONS'):
            e = [q for q in r.err.splitlines() if 'VSHIM-EXC' in q]
            c.counter('REASON ' + (' '.join(e)[16:400] if e else repr(r.err[-300:])))
    else:
        cat = read_catalogue(f'{c.dir}/cat.fits')
        c.counter('rows measured', len(cat) if cat else 0)
    c.counter(f'threads {o["thread-count"]}')
    c.sample(f'{o["thread-count"]} threads, tiles of {o["tile-size"]}, {n} sources, {sum(k.startswith("check-image") for k in o)} check images, {kind}')
    for key, text in race_reports(r.err):
        c.fail(key, f'{r.cmd}\n{text[:6000]}')


@section('c21_fit', 12, 300)
def c21_fit(c):
    go(c, 'fit')


@section('c21_plain', 8, 200)
def c21_plain(c):
    go(c, 'plain')


@section('c21_meas', 14, 300)
def c21_meas(c):
    go(c, 'meas')


@section('c21_checks', 10, 200)
def c21_checks(c):
    go(c, 'checks')


if __name__ == '__main__':
    sys.exit(main())
