"""Settings: equivalent ways of saying the same thing give the same catalogue, bad ones are refused, and the Python configuration objects hold what the files and arguments say."""
import json
from e2e_meas import *

MORE = MEASURES + ['Vignet', 'NCorePixel', 'HduNumber']
IDS = {'source_id', 'detection_id', 'group_id'}


def put(path, *hdus, **kw):
    write_fits(path, list(hdus), **kw)


def start(c, nmax=10, size=(40, 120)):
    """an image, its exact weights, and the options both runs share"""
    rng = c.rng
    s = {}
    w, h = rng.randint(*size), rng.randint(*size)
    sky = rng.choice([0.0, 0.0, 128.0])
    img, src = scene(rng, w, h, rng.randint(2, nmax), 1.0, sky, fmin=200, fmax=2e4, smax=2.5)
    img = (np.round(img * 16) / 16).astype(np.float32)        # few bits, so that powers of two scale it exactly
    g = np.random.default_rng(rng.getrandbits(60))
    rms = g.choice([.5, 1.0, 1.0, 2.0], (h, w)) if rng.random() < .5 else np.ones((h, w))
    bad = np.zeros((h, w), bool)
    if rng.random() < .7:
        for _ in range(rng.randint(1, 8)):
            x, y = rng.randrange(w), rng.randrange(h)
            bad[y:y + rng.randint(1, 6), x:x + rng.randint(1, 6)] = True
    rms[bad] = 64.0
    keys = tan_wcs(w, h, scale=1e-4, rot=rng.uniform(0, 6))
    s.update(w=w, h=h, img=img, rms=rms, bad=bad, keys=keys, sky=sky, gen=g, src=src)
    o = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.fits', 'detection-threshold': rng.choice([1.5, 2.0, 4.0]), 'output-properties': ','.join(MORE),
         'thread-count': rng.choice([0, 2])}
    if rng.random() < .6:
        o['background-value'] = sky
    else:
        o['background-cell-size'] = rng.choice([16, 32, '32,16'])
    if rng.random() < .3:
        o['partition-multithreshold'] = False
    if rng.random() < .3:
        o['use-attractors-partition'] = True
    if rng.random() < .3:
        o['grouping-algorithm'] = rng.choice(['none', 'overlap'])
    s['o'] = o
    return s


def wmap(rms, t):
    return {'rms': rms, 'variance': rms ** 2, 'weight': 1 / rms ** 2}[t].astype(np.float32)


def wthr(t, thr):
    return {'rms': thr, 'variance': thr * thr, 'weight': 1 / (thr * thr)}[t]


def add_weight(c, s, o, absolute=True, wt=None, name='wt.fits', scale=1.0, scaling=None, thr=None):
    wt = wt or c.rng.choice(['rms', 'variance', 'weight'])
    put(f'{c.dir}/{name}', (wmap(s['rms'], wt) * np.float32(scale), {}))
    o.update({'weight-image': name, 'weight-type': wt, 'weight-absolute': absolute})
    if scaling is not None:
        o['weight-scaling'] = scaling
    if thr is not None:
        o['weight-threshold'] = repr(wthr(wt, thr))
    return wt


def one(c, o, tag, extra=()):
    """runs with its own catalogue name"""
    o = dict(o)
    o['output-catalog-filename'] = f'cat_{tag}.fits'
    r = run(opts(o) + list(extra), c.dir)
    if not fail_run(c, r, 'run'):
        return None
    cat = read_catalogue(f'{c.dir}/cat_{tag}.fits')
    if 'group_id' in cat.columns:       # numbers are given in the order of the threads: only the classes count
        k = cat.columns.index('group_id')
        known = {}
        for row in cat.raw():
            row[k] = known.setdefault(row[k], len(known) + 1)
    return cat


def diff(a, b, columns=None, exact=True, ignore=(), map_=None):
    """description of the first difference of two catalogues, or None"""
    if a.columns != b.columns:
        return f'columns {[x for x in a.columns if x not in b.columns]} / {[x for x in b.columns if x not in a.columns]} or their order'
    if len(a) != len(b):
        return f'{len(a)} rows / {len(b)} rows'
    for i, (u, v) in enumerate(zip(a.rows(), b.rows())):
        for k in u:
            if k in ignore:
                continue
            x, y = np.asarray(u[k]), np.asarray(v[k])
            if map_:
                x = map_(k, x)
            if x.dtype.kind in 'USb':
                ok = x == y
            else:
                x, y = x.astype(float), y.astype(float)
                with np.errstate(invalid='ignore'):
                    same = (x == y) | (np.isnan(x) & np.isnan(y)) if x.shape == y.shape else np.array(False)
                    if not exact and x.shape == y.shape:
                        same |= np.abs(x - y) <= 2e-5 * np.abs(x) + 2e-5
                ok = bool(np.all(same))
            if not ok:
                return f'row {i} {k}: {u[k]} / {v[k]}'
    return None


# ---------------------------------------------------------------- equivalent settings
PAIRS = {}


def pair(f):
    PAIRS[f.__name__[2:]] = f
    return f


@pair
def p_weight_types(c, s):
    """the same noise as rms, variance or weight, absolute or relative"""
    rng = c.rng
    absolute = rng.random() < .6
    thr = rng.choice([None, 16.0, 64.0, 1.0, 1.5])
    a, b = rng.sample(['rms', 'variance', 'weight'], 2)
    A, B = dict(s['o']), dict(s['o'])
    add_weight(c, s, A, absolute, a, 'wa.fits', thr=thr)
    add_weight(c, s, B, absolute, b, 'wb.fits', thr=thr)
    return A, B, f'{a} and {b} absolute={absolute} threshold {thr}'


@pair
def p_weight_scaling(c, s):
    """a scaled map is the map times the scaling, whatever its type"""
    rng = c.rng
    k = rng.choice([.25, 4.0, 2.0])
    wt = rng.choice(['rms', 'variance', 'weight'])
    absolute = rng.random() < .6
    thr = rng.choice([None, 16.0, 1.5])
    A, B = dict(s['o']), dict(s['o'])
    add_weight(c, s, A, absolute, wt, 'wa.fits', thr=thr)
    add_weight(c, s, B, absolute, wt, 'wb.fits', scale=1 / k, scaling=k, thr=thr)
    return A, B, f'{wt} map divided by {k} with scaling {k} absolute={absolute} threshold {thr}'


@pair
def p_relative(c, s):
    """a relative map says nothing about the level of the noise"""
    rng = c.rng
    wt = rng.choice(['rms', 'variance', 'weight'])
    k = rng.choice([.25, 4.0, 16.0])
    A, B = dict(s['o']), dict(s['o'])
    s['rms'][s['bad']] = 2.0
    add_weight(c, s, A, False, wt, 'wa.fits')
    add_weight(c, s, B, False, wt, 'wb.fits', scale=k)
    return A, B, f'relative {wt} map times {k}'


@pair
def p_hdu(c, s):
    """file[n] and a file of that image alone"""
    rng = c.rng
    n = rng.randint(0, 3)
    other = lambda: (np.full((rng.randint(5, 50), rng.randint(5, 50)), 7, np.float32), tan_wcs(10, 10, ra=100))
    put(c.dir + '/multi.fits', *[(s['img'], s['keys']) if i == n else other() for i in range(4)])
    A, B = dict(s['o']), dict(s['o'])
    B['detection-image'] = f'multi.fits[{n}]'
    if rng.random() < .7:
        wt = add_weight(c, s, A)
        m = rng.randint(0, 2)
        put(c.dir + '/wmulti.fits', *[(wmap(s['rms'], wt), {}) if i == m else other() for i in range(3)])
        B.update({k: v for k, v in A.items() if k.startswith('weight')})
        B['weight-image'] = f'wmulti.fits[{m}]'
    return A, B, f'extension {n}', {'hdu_number'}


@pair
def p_headers(c, s):
    """keywords of the header and options; options win"""
    rng = c.rng
    gain, sat, fs = rng.choice([2.0, 50.0, 3]), rng.choice([100.0, 500, 3000.0]), rng.choice([1.0, 2, .5])
    k = dict(s['keys'])
    A, B = dict(s['o']), dict(s['o'])
    which = rng.sample(['gain', 'sat', 'fs'], rng.randint(1, 3))
    wrong = rng.random() < .5
    kb = dict(k)
    for n, key, opt, v in (('gain', 'GAIN', 'detection-image-gain', gain), ('sat', 'SATURATE', 'detection-image-saturation', sat), ('fs', 'FLXSCALE', 'detection-image-flux-scale', fs)):
        if n in which:
            k[key] = v
            B[opt] = v
            if wrong:
                kb[key] = rng.choice([0.0, 1.0, 77])
                if kb[key] == 0 and n == 'fs':
                    kb[key] = 3.0
    put(c.dir + '/det.fits', (s['img'], k))
    put(c.dir + '/detb.fits', (s['img'], kb))
    B['detection-image'] = 'detb.fits'
    return A, B, f'{which} by keyword and by option{" over other keywords" if wrong else ""}'


@pair
def p_flux_scale(c, s):
    """a flux scale and a scaled image"""
    rng = c.rng
    fs = rng.choice([2.0, 4.0, .5, .125])
    A, B = dict(s['o']), dict(s['o'])
    kb = dict(s['keys'])
    g, sat = rng.choice([0, 4.0, 64.0]), rng.choice([0, 256.0, 1024.0])
    A['detection-image-flux-scale'] = fs
    if g:
        A['detection-image-gain'], B['detection-image-gain'] = g, g / fs
    if sat:
        A['detection-image-saturation'], B['detection-image-saturation'] = sat, sat * fs
    if rng.random() < .7:
        absolute = rng.random() < .6
        thr = rng.choice([None, 16.0, 1.5])
        wt = add_weight(c, s, A, absolute, thr=thr, name='wa.fits')
        s2 = dict(s, rms=s['rms'] * (fs if absolute else 1))
        add_weight(c, s2, B, absolute, wt, 'wb.fits', thr=None if thr is None else thr * (fs if absolute else 1))
    put(c.dir + '/detb.fits', (s['img'] * np.float32(fs), kb))
    B['detection-image'] = 'detb.fits'
    if 'background-value' in A:
        A['background-value'] = B['background-value'] = s['sky'] * fs
    return A, B, f'flux scale {fs}, gain {g}, saturation {sat}, weights {A.get("weight-type")} absolute={A.get("weight-absolute")} threshold {A.get("weight-threshold")}'


@pair
def p_config_file(c, s):
    """options in a configuration file; the command line wins"""
    rng = c.rng
    A = dict(s['o'])
    if rng.random() < .5:
        add_weight(c, s, A)
    B = {}
    lines = ['# a comment', '']
    for k, v in A.items():
        v = 'true' if v is True else 'false' if v is False else str(v)
        if k == 'output-catalog-filename':
            B[k] = v
        elif rng.random() < .7:
            lines.append(f'{k}{rng.choice(["=", " = "])}{v}')
        else:
            B[k] = v
            if k == 'detection-threshold':
                lines.append('detection-threshold=30')
            elif k == 'output-properties':
                lines.append('output-properties=PixelCentroid')
    with open(c.dir + '/my.conf', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    B['config-file'] = 'my.conf'
    return A, B, f'{len(lines)} lines in a configuration file, {len(B)} options'


DEFAULTS = {'detection-image-interpolation': 'true', 'detection-image-interpolation-gap': 5, 'detection-minimum-area': 3, 'use-attractors-partition': 'false', 'partition-multithreshold': 'true',
            'partition-threshold-count': 32, 'partition-minimum-area': 3, 'partition-minimum-contrast': .005, 'use-cleaning': 'false', 'grouping-algorithm': 'split',
            'grouping-hard-limit': 0, 'auto-kron-factor': 2.5, 'auto-kron-min-radius': 3.5, 'flux-fraction': .5, 'flux-growth-samples': 64, 'vignet-size': '15,15', 'magnitude-zero-point': 0,
            'background-cell-size': 64, 'smoothing-box-size': 3, 'detection-threshold': 1.5, 'segmentation-algorithm': 'LUTZ', 'segmentation-use-filtering': 'true', 'weight-type': 'none',
            'weight-absolute': 'false', 'weight-use-symmetry': 'true', 'weight-scaling': 1, 'output-flush-size': 100, 'output-flush-sorted': 'true', 'output-catalog-format': 'FITS',
            'thread-max-queue-size': 1000, 'tile-size': 256, 'tile-memory-limit': 512, 'rng-seed': 42, 'detection-image-gain': 0, 'detection-image-saturation': 0, 'detection-image-flux-scale': 1,
            'segmentation-lutz-window-size': 0, 'core-threshold-value': 0, 'core-minimum-area': 0, 'partition-corethreshold': 'false'}


@pair
def p_defaults(c, s):
    """documented defaults"""
    rng = c.rng
    A = {k: v for k, v in s['o'].items() if k in ('detection-image', 'output-catalog-filename', 'output-properties', 'thread-count')}
    B = dict(A)
    for k in rng.sample(sorted(DEFAULTS), rng.randint(5, len(DEFAULTS))):
        B[k] = DEFAULTS[k]
    return A, B, f'{sorted(set(B) - set(A))}'


@pair
def p_dump(c, s):
    """the dumped default configuration, read back"""
    A = {k: v for k, v in s['o'].items() if k in ('detection-image', 'output-catalog-filename', 'output-properties', 'thread-count')}
    r = run(['--dump-default-config'], c.dir)
    if not fail_run(c, r, 'dump'):
        return None
    with open(c.dir + '/dump.conf', 'w') as f:
        f.write(r.out)
    given = {}
    for line in r.out.splitlines():
        if line and line[0] != '#':
            if c.check('=' in line, 'dump-line', f'line of the dump: {line!r}'):
                k, v = line.split('=', 1)
                given[k] = v
    for k, v in DEFAULTS.items():
        if k in given:
            g = given[k].lower()
            d = str(v).lower()
            d = {'true': '1', 'false': '0'}.get(d, d)
            try:
                ok = float(g) == float(d)
            except ValueError:
                ok = g == d
            c.check(ok, 'dump-default', f'{k}: dumped {given[k]!r}, default {v!r}')
        c.check(k in r.out, 'dump-incomplete', f'{k} is not in the dump')
    B = dict(A)
    B['config-file'] = 'dump.conf'
    return A, B, f'{len(given)} defaults dumped'


@pair
def p_case(c, s):
    """names in upper or lower case"""
    rng = c.rng
    A = dict(s['o'])
    add_weight(c, s, A)
    A.update({'segmentation-algorithm': rng.choice(['lutz', 'bfs']), 'grouping-algorithm': rng.choice(['none', 'overlap', 'split', 'moffat' if False else 'split']), 'output-catalog-format': 'fits'})
    B = {k: (v.upper() if k in ('segmentation-algorithm', 'grouping-algorithm', 'output-catalog-format', 'weight-type') else v) for k, v in A.items()}
    return A, B, 'upper case'


@pair
def p_zero_point(c, s):
    zp = c.rng.choice([25.0, -3.5, 30.25])
    A, B = dict(s['o']), dict(s['o'])
    B['magnitude-zero-point'] = zp
    return A, B, f'zero point {zp}', set(), lambda k, x: x + zp if k.endswith('_mag') else x


@pair
def p_filter(c, s):
    """one kernel as text, as FITS, normalised beforehand, or the default one"""
    rng = c.rng
    A, B = dict(s['o']), dict(s['o'])
    k = np.array([[1, 2, 1], [2, 4, 2], [1, 2, 1]], float)
    if rng.random() < .5:
        n, m = rng.choice([1, 3, 5]), rng.choice([1, 3, 5])
        k = np.zeros((m, n))
        k[m // 2, n // 2] = 1
        while k.sum() < 16:
            j, i = rng.randrange(m), rng.randrange(n)
            k[j, i] += 1
            if n * m == 1:
                break
        k = k * rng.choice([1, .25])
    default = k.shape == (3, 3) and k[1, 1] == 4 and k[0, 0] == 1 and k[0, 1] == 2 and k[2, 1] == 2 and k[1, 0] == 2
    txt = lambda a, how: f'CONV {how}\n# comment\n' + '\n'.join(' '.join(repr(float(x)) for x in r) + (' # end' if rng.random() < .3 else '') for r in a) + rng.choice(['\n', '', '\n\n# the end\n'])
    forms = ['text', 'fits', 'normalised'] + (['default'] if default else [])
    forms = rng.sample(forms, 2)
    for o, f, n in ((A, forms[0], 'a'), (B, forms[1], 'b')):
        if f == 'text':
            open(f'{c.dir}/{n}.conv', 'w').write(txt(k, 'NORM'))
            o['segmentation-filter'] = n + '.conv'
        elif f == 'fits':
            put(f'{c.dir}/{n}k.fits', (k.astype(np.float32), {}))
            o['segmentation-filter'] = n + 'k.fits'
        elif f == 'normalised':
            open(f'{c.dir}/{n}.conv', 'w').write(txt(k / k.sum(), 'NONORM'))
            o['segmentation-filter'] = n + '.conv'
    return A, B, f'kernel {k.shape} as {forms}'


@pair
def p_interpolation(c, s):
    A, B = dict(s['o']), dict(s['o'])
    add_weight(c, s, A, thr=16.0)
    B.update({k: v for k, v in A.items() if k.startswith('weight')})
    A['detection-image-interpolation'] = False
    B['detection-image-interpolation-gap'] = c.rng.choice([0, -3])
    return A, B, 'interpolation off, and gap 0 or below'


@pair
def p_columns(c, s):
    """other columns of the output, or their order, change no value"""
    rng = c.rng
    A, B = dict(s['o']), dict(s['o'])
    p = MORE[:]
    rng.shuffle(p)
    s['pick'] = p
    A['output-properties'] = ','.join(p)
    B['output-properties'] = ','.join(p[:rng.randint(1, len(p))])
    return A, B, B['output-properties'], 'subset'


@pair
def p_flux_fraction(c, s):
    """several fractions at once, and one by one"""
    rng = c.rng
    A, B = dict(s['o']), dict(s['o'])
    fr = sorted(rng.sample([.1, .25, .5, .75, .9], rng.randint(2, 4)))
    A['flux-fraction'] = ','.join(map(str, fr))
    k = rng.randrange(len(fr))
    B['flux-fraction'] = fr[k]
    return A, B, f'{fr} and {fr[k]}', set(), lambda n, x: np.asarray(x).reshape(-1, len(fr))[:, k].reshape(1, -1) if n == 'flux_radius' else x


def py(c, name, *lines):
    with open(f'{c.dir}/{name}', 'w') as f:
        f.write('from sourcextractor.config import *\n' + '\n'.join(lines) + '\n')
    return name


PYW = dict(s=None)


@pair
def p_python_same(c, s):
    """the detection image as measurement image by configuration file"""
    rng = c.rng
    A = dict(s['o'])
    kw = {}
    if rng.random() < .6:
        ab = rng.random() < .6
        thr = rng.choice([None, 16.0, 1.5])
        wt = add_weight(c, s, A, ab, thr=thr)
        kw = dict(weight_type=wt, weight_absolute=ab)
        if thr is not None:
            kw['weight_threshold'] = wthr(wt, thr)
        if rng.random() < .4:
            A['weight-scaling'] = kw['weight_scaling'] = rng.choice([2.0, .5])
        A['detection-image-interpolation'] = False      # measurement images are never interpolated
    elif rng.random() < .5:
        kw = dict(weight_type='background')
        A['weight-type'] = 'background'
    # gain, saturation and scale
    if rng.random() < .6:
        A['detection-image-gain'] = kw['gain'] = rng.choice([2.0, 100.0])
    if rng.random() < .6:
        A['detection-image-saturation'] = kw['saturation'] = rng.choice([100.0, 1000.0])
    if rng.random() < .5:
        A['detection-image-flux-scale'] = kw['flux_scale'] = rng.choice([2.0, .25])
    args = ''.join(f', {k}={v!r}' for k, v in kw.items())
    wf = "'wt.fits'" if 'weight-image' in A else 'None'
    line = rng.choice([f"top = load_fits_images(['det.fits'], weights={'[' + wf + ']' if wf != 'None' else 'None'}{args})", f"top = load_fits_image('det.fits', weight={wf}{args})",
                       f"top = ImageGroup(images=[MeasurementImage('det.fits', weight_file={wf}{args})])\nadd_measurement_image(top)" if hasattr(c, 'x') else
                       f"top = load_fits_image('det.fits', None, {wf}{args})"])
    B = dict(A)
    B['python-config-file'] = py(c, 'm.py', line, 'mg = MeasurementGroup(top)')
    return A, B, line


def images(c, s, n):
    """measurement images on the grid of the detection image, with weights"""
    res = []
    for i in range(n):
        img = (np.round((s['img'] - np.float32(s['sky']) + s['gen'].normal(0, 1, s['img'].shape)) * 16) / 16).astype(np.float32)
        rms = s['gen'].choice([.5, 1.0, 2.0], s['img'].shape)
        rms[s['gen'].uniform(0, 1, rms.shape) < .01] = 64.0
        res.append((img, rms))
    return res


def ap_lines(c, group='mg', d=None):
    d = d or [float(x) for x in c.rng.sample([2.5, 5, 7.25, 12, 20], c.rng.randint(1, 3))]
    return [f'ap = add_aperture_photometry([i for i in {group}], {d!r})', "add_output_column('aper', ap)"]


@pair
def p_python_hdu(c, s):
    """measurement images in separate files, in one file of several HDUs, or as layers of a cube"""
    rng = c.rng
    n = rng.randint(1, 3)
    ims = images(c, s, n)
    wt = rng.choice(['rms', 'variance', 'weight'])
    thr = wthr(wt, 16.0)
    for i, (im, rms) in enumerate(ims):
        put(f'{c.dir}/m{i}.fits', (im, s['keys']))
        put(f'{c.dir}/w{i}.fits', (wmap(rms, wt), {}))
    args = f", weight_type={wt!r}, weight_absolute=True, weight_threshold={thr!r}, gain=4.0"
    first = [f"top = load_fits_images({[f'm{i}.fits' for i in range(n)]!r}, weights={[f'w{i}.fits' for i in range(n)]!r}{args})"]
    how = rng.choice(['hdu', 'list', 'cube', 'cube_wlist', 'cube_mef', 'each'])
    empty = rng.random() < .4
    if how in ('hdu', 'list', 'each'):
        put(c.dir + '/all.fits', *[(im, s['keys']) for im, _ in ims], primary_empty=empty)
        put(c.dir + '/allw.fits', *[(wmap(r, wt), {}) for _, r in ims], primary_empty=empty)
    else:
        put(c.dir + '/all.fits', (np.stack([im for im, _ in ims]), s['keys']), primary_empty=empty)
        if how == 'cube':
            put(c.dir + '/allw.fits', (np.stack([wmap(r, wt) for _, r in ims]), {}))
        else:
            put(c.dir + '/allw.fits', *[(wmap(r, wt), {}) for _, r in ims], primary_empty=empty)
    ws = [f'w{i}.fits' for i in range(n)]
    e = int(empty)
    second = {'hdu': f"top = load_fits_image('all.fits', weight='allw.fits'{args})", 'list': f"top = load_fits_image('all.fits', weight={ws!r}{args})",
              'cube': f"top = load_fits_data_cube('all.fits', weight='allw.fits'{args})", 'cube_wlist': f"top = load_fits_data_cube('all.fits', weight={ws!r}{args})",
              'cube_mef': f"top = load_fits_data_cube('all.fits', weight='allw.fits'{args})",
              'each': f"top = ImageGroup(images=[MeasurementImage('all.fits', weight_file='allw.fits', image_hdu=i+{e}, weight_hdu=i+{e}{args}) for i in range({n})])"}[how]
    ap = ap_lines(c)
    A, B = dict(s['o']), dict(s['o'])
    A['output-properties'] = B['output-properties'] = ','.join(MORE + ['AperturePhotometry'])
    A['python-config-file'] = py(c, 'a.py', *first, 'mg = MeasurementGroup(top)', *ap)
    B['python-config-file'] = py(c, 'b.py', second, 'mg = MeasurementGroup(top)', *ap)
    return A, B, f'{n} images as {how}, empty primary {empty}'


@pair
def p_python_flux_scale(c, s):
    rng = c.rng
    (im, rms), = images(c, s, 1)
    fs = rng.choice([2.0, 4.0, .5])
    wt = rng.choice(['rms', 'variance', 'weight'])
    ab = rng.random() < .7
    thr = rng.choice([None, 16.0, 1.5, 1.5])
    g, sat = rng.choice([0.0, 16.0]), rng.choice([0.0, 512.0])
    bg = rng.choice([None, 2.0])
    f2 = fs if ab else 1.0
    put(c.dir + '/ma.fits', (im, dict(s['keys'], **({'FLXSCALE': fs} if rng.random() < .5 else {}))))
    put(c.dir + '/mb.fits', (im * np.float32(fs), s['keys']))
    put(c.dir + '/wa.fits', (wmap(rms, wt), {}))
    put(c.dir + '/wb.fits', (wmap(rms * f2, wt), {}))
    mk = lambda f, k: f"top = ImageGroup(images=[MeasurementImage('m{f}.fits', weight_file='w{f}.fits', weight_type={wt!r}, weight_absolute={ab}" + \
        (f', flux_scale={fs}' if k else '') + (f', weight_threshold={wthr(wt, thr * (1 if k else f2))!r}' if thr is not None else '') + \
        f', gain={g if k else g / fs}, saturation={sat if k else sat * fs}' + (f', constant_background={bg}' if bg is not None else '') + ')])'
    ap = ap_lines(c)
    A, B = dict(s['o']), dict(s['o'])
    A['output-properties'] = B['output-properties'] = ','.join(MORE + ['AperturePhotometry'])
    A['python-config-file'] = py(c, 'a.py', mk('a', 1), 'mg = MeasurementGroup(top)', *ap)
    B['python-config-file'] = py(c, 'b.py', mk('b', 0), 'mg = MeasurementGroup(top)', *ap)
    return A, B, f'flux scale {fs}, {wt} absolute={ab} threshold {thr} gain {g} saturation {sat} background {bg}'


@pair
def p_python_keywords(c, s):
    """gain, saturation and scale by argument, by keyword, by named keyword"""
    rng = c.rng
    (im, rms), = images(c, s, 1)
    g, sat, fs = rng.choice([2.0, 50]), rng.choice([200.0, 1000]), rng.choice([2.0, 4])
    k = dict(s['keys'])
    names = rng.choice([('GAIN', 'SATURATE', 'FLXSCALE'), ('EGAIN', 'SATLEV', 'FSCL')])
    k.update(zip(names, (g, sat, fs)))
    if names[0] != 'GAIN' and rng.random() < .5:
        k.update(GAIN=9.0, SATURATE=17.0, FLXSCALE=5.0)
    put(c.dir + '/ma.fits', (im, k))
    kb = dict(s['keys'])
    if rng.random() < .5:
        kb.update(GAIN=8.0, SATURATE=27.0, FLXSCALE=.5)
    put(c.dir + '/mb.fits', (im, kb))
    kw = '' if names[0] == 'GAIN' else f", gain_keyword='{names[0]}', saturation_keyword='{names[1]}', flux_scale_keyword='{names[2]}'"
    ap = ap_lines(c)
    A, B = dict(s['o']), dict(s['o'])
    A['output-properties'] = B['output-properties'] = ','.join(MORE + ['AperturePhotometry'])
    A['python-config-file'] = py(c, 'a.py', f"mg = MeasurementGroup(ImageGroup(images=[MeasurementImage('ma.fits'{kw})]))", *ap)
    B['python-config-file'] = py(c, 'b.py', f"mg = MeasurementGroup(ImageGroup(images=[MeasurementImage('mb.fits', gain={g!r}, saturation={sat!r}, flux_scale={fs!r})]))", *ap)
    return A, B, f'{names}'


@pair
def p_python_args(c, s):
    """values given on the command line to the script"""
    rng = c.rng
    (im, rms), = images(c, s, 1)
    put(c.dir + '/ma.fits', (im, s['keys']))
    d, g = rng.choice([4.5, 11.0]), rng.choice([2.0, 7])
    A, B = dict(s['o']), dict(s['o'])
    A['output-properties'] = B['output-properties'] = ','.join(MORE + ['AperturePhotometry'])
    A['python-config-file'] = py(c, 'a.py', f"mg = MeasurementGroup(load_fits_images(['ma.fits'], gain={g!r}))", f'ap = add_aperture_photometry([i for i in mg], [{d}])', "add_output_column('aper', ap)")
    B['python-config-file'] = py(c, 'b.py', "from sourcextractor.config.argv import Arguments, FileList", f"args = Arguments(diam=float, gain=1.0, files=FileList('nothing*'), unused=3)",
                                 "assert args.unused == 3", "mg = MeasurementGroup(load_fits_images([i for i in args.files], gain=args.gain))", "ap = add_aperture_photometry([i for i in mg], [args.diam])", "add_output_column('aper', ap)") \
        if False else py(c, 'b.py', "from sourcextractor.config.argv import Arguments", "args = Arguments(diam=float, gain=1.0, name=str, unused=3)",
                         "assert args.unused == 3", "mg = MeasurementGroup(load_fits_images([args.name], gain=args.gain))", "ap = add_aperture_photometry([i for i in mg], [args.diam])", "add_output_column('aper', ap)")
    return A, B, 'python-arg', set(), None, [f'--python-arg=diam={d}', f'--python-arg=gain={g}', '--python-arg=name=ma.fits']


@pair
def p_python_groups(c, s):
    """several apertures and images asked for in another way or order"""
    rng = c.rng
    n = rng.randint(2, 3)
    filt = [rng.choice('RG') for _ in range(n)]
    for i, (im, rms) in enumerate(images(c, s, n)):
        put(f'{c.dir}/m{i}.fits', (im, dict(s['keys'], FILTER=filt[i], GAIN=float(2 + i))))
    d = [float(x) for x in rng.sample([2.5, 5, 7.25, 12, 20], rng.randint(1, 3))]
    A, B = dict(s['o']), dict(s['o'])
    A['output-properties'] = B['output-properties'] = ','.join(MORE + ['AperturePhotometry'])
    files = [f'm{i}.fits' for i in range(n)]
    A['python-config-file'] = py(c, 'a.py', f'mg = MeasurementGroup(load_fits_images({files!r}))', f'ap = add_aperture_photometry([i for i in mg], {d!r})', "add_output_column('aper', ap)")
    B['python-config-file'] = py(c, 'b.py', f'top = load_fits_images({files!r})', "top.split(ByKeyword('FILTER'))", 'mg = MeasurementGroup(top)', 'ap = []', 'for name, sub in mg:',
                                 '    for im in sub:', f'        ap += add_aperture_photometry(im, {d!r})', 'ap.sort(key=lambda a: a.id)',
                                 'order = {i.id: k for k, i in enumerate(j for name, sub in mg for j in sub)}',
                                 f"want = [i for f in {files!r} for name, sub in mg for i in sub if i.file.endswith(f)]",
                                 'byim = dict((k, v) for k, v in zip(order, ap))', "add_output_column('aper', [byim[i.id] for i in want])")
    return A, B, f'filters {filt}, apertures {d}'


@section('c24_pairs', 120, 1200)
def c24_pairs(c):
    names = sorted(PAIRS)
    name = names[c.case % len(names)]
    s = start(c)
    put(c.dir + '/det.fits', (s['img'], s['keys']))
    t = PAIRS[name](c, s)
    if t is None:
        return
    A, B, what = t[:3]
    ignore = t[3] if len(t) > 3 else set()
    a = one(c, A, 'a')
    b = one(c, B, 'b', t[5] if len(t) > 5 else ())
    if a is None or b is None:
        return
    if ignore == 'subset':
        u, v = a.rows(), b.rows()
        extra = [k for k in b.columns if k not in a.columns]
        d = f'columns {extra}' if extra else f'{len(u)} / {len(v)} rows' if len(u) != len(v) else None
        if not d:
            for i, (x, y) in enumerate(zip(u, v)):
                for k in y:
                    if not same_exact(x[k], y[k]):
                        d = f'row {i} {k}: {x[k]} / {y[k]}'
                        break
        c.check(d is None, 'pair-columns', lambda: f'{what}: {d}')
        c.check(len(set(b.columns)) == len(b.columns), 'pair-columns-twice', str(b.columns))
    elif name == 'relative':
        # the level is measured from a histogram, whose bins follow the scale
        at = lambda cat: {(r['peak_value_x'], r['peak_value_y'], r['n_detected_pixels']): r for r in cat.rows()}
        u, v = at(a), at(b)
        both = [k for k in u if k in v]
        c.check(len(both) >= .7 * max(len(u), len(v)) - 1, 'pair-relative-rows', lambda: f'{what}: {len(u)} / {len(v)} sources, {len(both)} in both')
        for k in both:
            x, y = float(u[k]['isophotal_flux_err']), float(v[k]['isophotal_flux_err'])
            c.check(abs(x - y) <= .03 * x, 'pair-relative', lambda: f'{what}: isophotal_flux_err {x} / {y}')
    else:
        map_ = t[4] if len(t) > 4 else None
        d = diff(a, b, exact=name != 'zero_point', ignore=ignore, map_=map_)
        c.check(d is None, 'pair-' + name, lambda: f'{what}: {d}\nA: {" ".join(opts(A))}\nB: {" ".join(opts(B))}')
    c.counter('rows compared', len(a))
    c.counter(f'pairs {name}')
    c.sig(f'{name} {what} {s["w"]}x{s["h"]} {len(a)}')
    c.sample(f'{name}: {what}: {len(a)} rows')


def same_exact(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype.kind in 'USb':
        return bool(np.all(x == y))
    return x.shape == y.shape and bool(np.all((x == y) | (np.isnan(x.astype(float)) & np.isnan(y.astype(float)))))


# ---------------------------------------------------------------- bad settings
def bad_list(c):
    """name -> options on top of the valid ones (None removes one); files beside"""
    rng = c.rng
    h, w = 40, 50
    d = c.dir
    img = (np.random.default_rng(rng.getrandbits(60)).normal(0, 1, (h, w)) + gauss((h, w), 25, 20, 3000, 2)).astype(np.float32)
    k = tan_wcs(w, h)
    put(d + '/det.fits', (img, k))
    put(d + '/wt.fits', (np.ones((h, w), np.float32), {}))
    put(d + '/small.fits', (np.ones((h - 3, w - 5), np.float32), {}))
    put(d + '/two.fits', (img, k), (img, k))
    put(d + '/gain_text.fits', (img, dict(k, GAIN='high')))
    put(d + '/sat_text.fits', (img, dict(k, SATURATE='high')))
    put(d + '/fs_text.fits', (img, dict(k, FLXSCALE='high')))
    put(d + '/flag.fits', (np.zeros((h, w), np.int32), {}, 32))
    put(d + '/flag_small.fits', (np.zeros((h - 1, w), np.int32), {}, 32))
    put(d + '/empty.fits', (None, {}))
    put(d + '/cube.fits', (np.ones((2, h, w), np.float32), {}))
    open(d + '/text.fits', 'w').write('not a FITS file\n' * 300)
    for n, t in dict(nostart='1 2 1\n2 4 2\n1 2 1\n', badnorm='CONV MAYBE\n1 1\n', empty='', onlyhead='CONV NORM\n', ragged='CONV NORM\n1 2 1\n2 4\n1 2 1\n', ragged2='CONV NORM\n1 2 1\n2 4 2 1 1\n1 2 1\n',
                     text='CONV NORM\n1 2 1\n2 four 2\n1 2 1\n', word='CONV NORM\nabc\n', trail='CONV NORM\n1 2 1x\n2 4 2\n1 2 1\n').items():
        open(f'{d}/{n}.conv', 'w').write(t)
    open(d + '/unknown.conf', 'w').write('no-such-setting=3\n')
    open(d + '/value.conf', 'w').write('detection-threshold=high\n')
    open(d + '/broken.conf', 'w').write('detection-threshold\n')
    os.makedirs(d + '/adir', exist_ok=True)
    P = lambda name, *l: {'python-config-file': py(c, name, *l)}
    mi = "MeasurementImage('det.fits'"
    L = {}
    for opt, vals in {'detection-threshold': ['abc', '', '1.5x'], 'thread-count': [-2, 'two', 1.5], 'thread-max-queue-size': [0, -1], 'tile-size': [0, -4, 'x'], 'tile-memory-limit': [0, -1],
                      'segmentation-algorithm': ['FOO', '', 'ML'], 'grouping-algorithm': ['FOO', ''], 'output-catalog-format': ['XML', ''], 'output-properties': ['NoSuchProperty', 'SourceIDs,Nope'],
                      'weight-type': ['foo', ''], 'detection-image': ['missing.fits', 'text.fits', 'empty.fits', 'adir', 'det.fits[7]', 'gain_text.fits', 'sat_text.fits', 'fs_text.fits'],
                      'background-cell-size': [0, -8, 'big', '16,0', '16,x', '1.5'], 'smoothing-box-size': [-1, 'x', '3,-3'], 'flux-fraction': ['0', '1', '-.5', '1.5', 'x', '.5,2', '.5,,.6'],
                      'flux-growth-samples': [0, -1, 'x'], 'vignet-size': ['-1', '3,-3', '1,2,3', 'x'], 'background-value': ['abc'], 'magnitude-zero-point': ['x'],
                      'use-attractors-partition': ['maybe'], 'partition-multithreshold': [2, 'perhaps'], 'detection-image-interpolation-gap': ['x', 1.5], 'config-file': ['missing.conf', 'unknown.conf', 'value.conf', 'broken.conf'],
                      'python-config-file': ['missing.py'], 'weight-absolute': ['true', 'what'], 'reference-image': ['det.fits'], 'rng-seed': ['x'], 'partition-threshold-count': [0, -1], 'partition-minimum-area': [0, -2],
                      'grouping-hard-limit': ['x'], 'assoc-catalog': ['missing.cat'], 'flag-image-one': ['missing.fits'], 'psf-filename': ['missing.psf'], 'output-flush-size': ['x'],
                      'segmentation-filter': ['missing.conv'] + [n + '.conv' for n in ('nostart', 'badnorm', 'empty', 'onlyhead', 'ragged', 'ragged2', 'text', 'word', 'trail')]}.items():
        for v in vals:
            o = {opt: v}
            if opt == 'flux-fraction':
                o['output-properties'] = 'SourceIDs,FluxRadius'
            if opt == 'flux-growth-samples':
                o['output-properties'] = 'SourceIDs,GrowthCurve'
            if opt == 'vignet-size':
                o['output-properties'] = 'SourceIDs,Vignet'
            if opt.startswith('partition-') and opt != 'partition-multithreshold':
                o['partition-multithreshold'] = True
            L[f'{opt}={v}'] = o
    L['no-such-option'] = {'no-such-option': 1}
    L['two-detections'] = {'detection-image': None, 'reference-image': None}
    L['nothing'] = {'detection-image': None}
    L['assoc-without-catalogue'] = {'segmentation-algorithm': 'ASSOC'}
    L['ml-without-model'] = {'segmentation-algorithm': 'ML'}
    for v in (0, -1):
        L[f'cleaning-area {v}'] = {'use-cleaning': True, 'cleaning-minimum-area': v}
        L[f'core-area {v}'] = {'partition-corethreshold': True, 'core-threshold-value': 2, 'core-minimum-area': v} if v < 0 else {'use-cleaning': True, 'cleaning-minimum-area': 0}
    W = {'weight-image': 'wt.fits', 'weight-type': 'rms', 'weight-absolute': True}
    L['weight-untyped'] = {'weight-image': 'wt.fits'}
    L['weight-none'] = dict(W, **{'weight-type': 'none'})
    L['weight-background'] = dict(W, **{'weight-type': 'background'})
    L['weight-missing'] = dict(W, **{'weight-image': 'missing.fits'})
    L['weight-text'] = dict(W, **{'weight-image': 'text.fits'})
    L['weight-size'] = dict(W, **{'weight-image': 'small.fits'})
    L['weight-threshold'] = dict(W, **{'weight-threshold': 'x'})
    L['weight-scaling'] = dict(W, **{'weight-scaling': 'x'})
    L['weight-too-few'] = dict(W, **{'detection-image': 'two.fits'})
    L['flag-type'] = {'flag-image-one': 'flag.fits', 'flag-type-one': 'SOME', 'output-properties': 'SourceIDs,ExternalFlags'}
    L['flag-size'] = {'flag-image-one': 'flag_small.fits', 'flag-type-one': 'OR', 'output-properties': 'SourceIDs,ExternalFlags'}
    L['py-syntax'] = P('p1.py', 'def x(:')
    L['py-raise'] = P('p2.py', 'raise Exception("no")')
    L['py-exit'] = P('p3.py', 'import sys', 'sys.exit(3)')
    L['py-missing-image'] = P('p4.py', "load_fits_images(['missing.fits'])")
    L['py-text-image'] = P('p5.py', "load_fits_images(['text.fits'])")
    L['py-missing-weight'] = P('p6.py', f"mg = MeasurementGroup(ImageGroup(images=[{mi}, weight_file='missing.fits', weight_type='rms')]))", *ap_lines(c))
    L['py-missing-psf'] = P('p7.py', f"mg = MeasurementGroup(ImageGroup(images=[{mi}, psf_file='missing.psf')]))", *ap_lines(c))
    for i, a in enumerate(["gain='x'", "weight_type='foo'", 'weight_type=3', "weight_file='wt.fits'", "weight_file='wt.fits', weight_type='background'", "weight_type='rms'", 'image_hdu=-1', 'image_hdu=4', 'weight_hdu=-1', 'nosuch=1',
                           "weight_file='wt.fits', weight_type='rms', weight_hdu=3", "saturation='x'", "flux_scale=[1]", "weight_file='small.fits', weight_type='rms', weight_absolute=True", "constant_background='x'",
                           "weight_threshold='x', weight_file='wt.fits', weight_type='rms'"]):
        L[f'py-image {a}'] = P(f'q{i}.py', f"im = {mi}, {a})", 'add_measurement_image(im)' if False else 'mg = MeasurementGroup(load_fits_images(["det.fits"]))' if False else 'mg = MeasurementGroup(ImageGroup(images=[im]))',
                                'from sourcextractor.config import measurement_config', *ap_lines(c))
    for i, (n, ls) in enumerate({'twice': ['top = load_fits_images(["det.fits"])', 'mg = MeasurementGroup(top)', *ap_lines(c), *ap_lines(c)[:1]],
                                 'name twice': ['top = load_fits_images(["det.fits"])', 'mg = MeasurementGroup(top)', *ap_lines(c), "add_output_column('aper', ap)"],
                                 'aperture text': ['top = load_fits_images(["det.fits"])', 'mg = MeasurementGroup(top)', *ap_lines(c, d=['wide'])],
                                 'aperture target': ['add_aperture_photometry("det.fits", [5.])'], 'column type': ["add_output_column('x', 3)"],
                                 'lists': ["load_fits_images(['det.fits', 'det.fits'], weights=['wt.fits'], weight_type='rms')"], 'empty list': ['load_fits_images([])'],
                                 'psf lists': ["load_fits_images(['det.fits'], psfs=['a', 'b'])"], 'weights of hdus': ["load_fits_image('two.fits', weight=['wt.fits'], weight_type='rms')"],
                                 'not a cube': ["load_fits_data_cube('det.fits')"], 'split': ["load_fits_images(['det.fits']).split(ByKeyword('NOKEY'))"],
                                 'group': ["ImageGroup(a=1)"], 'args': ["from sourcextractor.config.argv import Arguments", "Arguments(a=3)"], }.items()):
        L['py ' + n] = P(f'r{i}.py', *ls)
    L['py args']['python-arg'] = 'b=3'
    L['catalogue-in-missing-directory'] = {'output-catalog-filename': 'nodir/cat.fits'}
    return L


GOOD = [{'thread-count': -1}, {'thread-count': 0}, {'flux-fraction': '.999,.001', 'output-properties': 'FluxRadius'}, {'smoothing-box-size': 0}, {'smoothing-box-size': '1'}, {'background-cell-size': '7,9'}, {'vignet-size': 3, 'output-properties': 'Vignet'},
        {'detection-image': 'det.fits[0]'}, {'weight-type': 'background'}, {'weight-type': 'NONE'}, {'output-flush-size': 0}, {'output-flush-size': -1}, {'grouping-hard-limit': 1},
        {'segmentation-algorithm': 'bfs'}, {'use-cleaning': False, 'cleaning-minimum-area': 0}, {'partition-multithreshold': False, 'partition-threshold-count': 0}, {'partition-multithreshold': True, 'partition-threshold-count': 1},
        {'tile-size': 1}, {'tile-memory-limit': 1}, {'detection-minimum-area': 1}, {'detection-threshold': 0.5}, {'output-properties': 'PixelCentroid,PixelCentroid'}, {'rng-seed': 0}, {'detection-image': 'two.fits'},
        {'detection-image-gain': 0}, {'detection-image-saturation': 0}, {'flux-growth-samples': 1, 'output-properties': 'GrowthCurve'}, {'flag-image-one': 'flag.fits', 'output-properties': 'ExternalFlags'}, {'thread-max-queue-size': 1},
        {'auto-kron-min-radius': 0, 'output-properties': 'AutoPhotometry'}, {'weight-image': 'wt.fits', 'weight-type': 'weight', 'weight-threshold': 0}, {'core-minimum-area': 5, 'core-threshold-value': 3, 'partition-corethreshold': True}]


@section('c24_refused', 185, 185)
def c24_refused(c):
    """settings that are unknown, malformed or contradictory"""
    L = bad_list(c)
    names = sorted(L)
    base = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.fits', 'output-properties': 'SourceIDs,PixelCentroid,AutoPhotometry', 'check-image-segmentation': 'seg.fits', 'thread-count': 2}
    if c.case >= len(names) + len(GOOD):
        return
    if c.case >= len(names):
        g = GOOD[c.case - len(names)]
        r = run(opts(dict(base, **g)), c.dir)
        if fail_run(c, r, 'accepted'):
            cat = read_catalogue(c.dir + '/cat.fits')
            c.check(cat is not None and len(cat) > 0, 'accepted-nothing', f'no rows with {g}')
        c.sig(f'good {g}')
        return
    n = names[c.case]
    o = {k: v for k, v in dict(base, **L[n]).items() if v is not None}
    args = []
    for k, v in o.items():
        args.append(f'--{k}={"true" if v is True else "false" if v is False else v}')
    r = run(args, c.dir)
    if not clean_exit(c, r, 'refuse'):
        return
    c.check(r.rc != 0, f'accepted {n}', f'exit 0 with {args}')
    cat = read_catalogue(c.dir + '/' + o.get('output-catalog-filename', 'cat.fits'))
    c.check(cat is None or len(cat) == 0, f'processed-before-refusing {n}', lambda: f'{len(cat)} rows written and then exit {r.rc}')
    c.check(not os.path.exists(c.dir + '/seg.fits') or r.rc == 0 or not read_image(c.dir + '/seg.fits').any(), f'images-before-refusing {n}', '')
    c.counter('refused' if r.rc else 'accepted')
    c.sig(n)
    c.sample(f'{n}: exit {r.rc}: {r.err.strip()[-150:]}')


# ---------------------------------------------------------------- the Python configuration objects
DUMP = """
import json
out = {}
def im(i):
    return dict(id=i.id, file=i.file, psf=i.psf_file, weight=i.weight_file, gain=i.gain, sat=i.saturation, fs=i.flux_scale, wt=i.weight_type, wa=i.weight_absolute, ws=i.weight_scaling,
                ht=i.has_weight_threshold, th=i.weight_threshold, cb=i.is_background_constant, cv=i.constant_background_value, ih=i.image_hdu, ph=i.psf_hdu, wh=i.weight_hdu, cube=i.is_data_cube,
                il=i.image_layer, wl=i.weight_layer, pr=i.psf_renormalize, meta=dict(i.meta))
def tree(g):
    return [im(i) for i in g] if g.is_leaf() else [[n, tree(s)] for n, s in g]
"""


@section('c24_python', 40, 500)
def c24_python(c):
    """what the configuration objects hold, against the files and arguments"""
    rng = c.rng
    nf = rng.randint(1, 4)
    files, meta = [], []
    put(c.dir + '/det.fits', (np.zeros((10, 10), np.float32), tan_wcs(10, 10)))
    for f in range(nf):
        hd, info = [], []
        n = rng.randint(1, 4)
        out = b''
        first = True
        if rng.random() < .4:
            out += hdu_bytes(None, first=True, bitpix=8)
            info.append(None)
            first = False
        for i in range(n):
            if not first and rng.random() < .25:
                out += bintable([('a', 'J', np.arange(3))], 3)
                info.append(None)
            k = tan_wcs(10, 10)
            k['FILTER'] = rng.choice(['R', 'G', 'I band', "O'III"])
            k['OBSFILE'] = rng.choice(['a_1_x', 'b_2_x', 'c_1_y'])
            if rng.random() < .6:
                k['GAIN'] = rng.choice([1.5, 2.0, 3, 1e-3, 123456.789])
            if rng.random() < .5:
                k['SATURATE'] = rng.choice([65535, 40000.5])
            if rng.random() < .4:
                k['FLXSCALE'] = rng.choice([2.0, .1, 3])
            if rng.random() < .4:
                k['EGAIN'] = rng.choice([7.0, 9])
            k['LOGIC'] = rng.random() < .5
            k['INT'] = rng.choice([-5, 0, 2 ** 40])
            dims = rng.choice([(7, 9), (7, 9), (3, 5, 6)])
            out += hdu_bytes(np.zeros(dims, np.float32), k, first)
            info.append((k, dims))
            first = False
        open(f'{c.dir}/f{f}.fits', 'wb').write(out)
        files.append(info)
    lines = [DUMP]
    exp = {}
    # files
    for f, info in enumerate(files):
        lines += [f"F{f} = FitsFile('f{f}.fits')", f"out['hdus{f}'] = [int(i) for i in F{f}]", f"out['name{f}'] = F{f}.filename"]
        for h, x in enumerate(info):
            if x:
                lines += [f"out['h{f}_{h}'] = F{f}.get_headers({h})", f"out['d{f}_{h}'] = [int(i) for i in F{f}.get_dimensions({h})]"]
    # images
    want = []
    ids = 0
    for i in range(rng.randint(1, 5)):
        f = rng.randrange(nf)
        hs = [h for h, x in enumerate(files[f]) if x]
        h = rng.choice(hs)
        k, dims = files[f][h]
        kw = dict(image_hdu=h)
        w = dict(id=ids, file=f'{c.dir}/f{f}.fits', psf='', weight='', gain=float(k.get('GAIN', 0)), sat=float(k.get('SATURATE', 0)), fs=float(k.get('FLXSCALE', 1)), wt='none', wa=False, ws=1.0, ht=False, cb=False, ih=h, ph=h, wh=h,
                 cube=False, pr=True)
        ids += 1
        if rng.random() < .3:
            kw['gain'] = w['gain'] = rng.choice([0.0, 5.5, 3])
        elif rng.random() < .3:
            kw['gain_keyword'] = 'EGAIN'
            w['gain'] = float(k.get('EGAIN', 0))
        if rng.random() < .3:
            kw['saturation'] = w['sat'] = 1234.5
        if rng.random() < .3:
            kw['flux_scale'] = w['fs'] = .75
        if rng.random() < .4:
            w['wt'] = kw['weight_type'] = rng.choice(['rms', 'Weight', 'variance', 'background'])
        if rng.random() < .4:
            kw['weight_absolute'] = w['wa'] = True
        if rng.random() < .3:
            kw['weight_scaling'] = w['ws'] = rng.choice([2.5, 3])
        if rng.random() < .4:
            kw['weight_threshold'] = w['th'] = rng.choice([0.0, 12.5])
            w['ht'] = True
        if rng.random() < .4:
            kw['constant_background'] = w['cv'] = rng.choice([0.0, -3.5, 100])
            w['cb'] = True
        if rng.random() < .3:
            kw['psf_hdu'] = w['ph'] = rng.randint(0, 9)
        if rng.random() < .3:
            kw['weight_hdu'] = w['wh'] = rng.randint(0, 9)
        if rng.random() < .3:
            kw['psf_file'] = 'x.psf'
            w['psf'] = c.dir + '/x.psf'
        if rng.random() < .3:
            kw['weight_file'] = 'w.fits'
            w['weight'] = c.dir + '/w.fits'
        cls = 'MeasurementImage'
        if len(dims) == 3:
            cls = 'DataCubeSlice'
            kw['image_layer'] = w['il'] = rng.randrange(dims[0])
            kw['weight_layer'] = w['wl'] = rng.randrange(3)
            w['cube'] = True
        elif rng.random() < .3:
            kw['psf_renormalize'] = w['pr'] = False
        src = rng.choice([f"'f{f}.fits'", f'F{f}'])
        lines += [f'I{i} = {cls}({src}, {", ".join(f"{a}={b!r}" for a, b in kw.items())})', f"out['im{i}'] = im(I{i})"]
        want.append((w, k))
        if rng.random() < .4:
            d = [rng.choice([5, 2.5, 7.125, 0.1, 1e3]) for _ in range(rng.randint(1, 4))]
            lines += [f'A{i} = add_aperture_photometry(I{i}, {d!r})', f"out['ap{i}'] = [[a.id, list(a.apertures), str(a)] for a in A{i}]"]
            exp[f'ap{i}'] = (ids, d)
            ids += 1
    n = len(want)
    # groups
    how = rng.choice(['key', 'pattern', 'key2'])
    lines += [f"g = ImageGroup(images=[{', '.join(f'I{i}' for i in range(n))}])", f"out['len'] = len(g)"]
    if how == 'pattern':
        lines.append("g.split(ByPattern('OBSFILE', '._([0-9])_'))")
    else:
        lines.append("g.split(ByKeyword('FILTER'))")
    lines += ["out['tree'] = tree(g)", "mg = MeasurementGroup(g)", "out['mtree'] = tree(mg)", "out['glen'] = [len(g), len(mg)]", "out['sub'] = [[n, [i.id for i in mg[n]]] for n, _ in mg]",
              "with open('out.json', 'w') as fh:\n    json.dump(out, fh)"]
    open(c.dir + '/m.py', 'w').write('from sourcextractor.config import *\nfrom sourcextractor.config.measurement_images import *\nimport traceback\ntry:\n' + '\n'.join('    ' + l for l in '\n'.join(lines).split('\n')) +
                                     "\nexcept Exception:\n    open('trace.txt', 'w').write(traceback.format_exc())\n    raise\n")
    r = run(['--detection-image', 'det.fits', '--python-config-file', 'm.py', '--property-column-mapping', '--thread-count', '0'], c.dir)
    tr = c.dir + '/trace.txt'
    if os.path.exists(tr):
        c.fail('python-exception', open(tr).read()[-700:])
        return
    if not os.path.exists(c.dir + '/out.json'):
        c.fail('python-no-output', r.err[-500:])
        return
    out = json.load(open(c.dir + '/out.json'))
    num = lambda a, b: abs(float(a) - float(b)) <= 1e-6 * abs(float(b)) + 1e-12

    def head(got, k, msg):
        for a, b in k.items():
            if not c.check(a in got, 'header-keyword', f'{msg}: {a} missing'):
                continue
            g = got[a]
            ok = g == b.strip() if isinstance(b, str) else (g in ('1', 'T', 'True')) == b if isinstance(b, bool) else g == str(b) if isinstance(b, int) else num(g, b)
            c.check(ok, 'header-value', f'{msg}: {a} = {g!r}, the file has {b!r}')
    for f, info in enumerate(files):
        c.check(out[f'hdus{f}'] == [h for h, x in enumerate(info) if x], 'image-hdus', lambda: f"f{f}: {out[f'hdus{f}']}, images at {[h for h, x in enumerate(info) if x]}")
        c.check(out[f'name{f}'].endswith(f'f{f}.fits'), 'file-name', out[f'name{f}'])
        for h, x in enumerate(info):
            if x:
                head(out[f'h{f}_{h}'], x[0], f'f{f}[{h}]')
                c.check(out[f'd{f}_{h}'] == list(x[1][::-1]), 'dimensions', lambda: f"f{f}[{h}] {out[f'd{f}_{h}']} for {x[1][::-1]}")
    got_ids = []
    base = None
    for i, (w, k) in enumerate(want):
        g = out[f'im{i}']
        if base is None:
            base = g['id'] - w['id']
        got_ids.append(g['id'])
        for a, b in w.items():
            if a == 'id':
                continue
            ok = (num(g[a], b) if isinstance(b, float) or (isinstance(b, int) and not isinstance(b, bool)) else g[a] == b)
            c.check(ok, 'image-' + a, f'image {i}: {a} = {g[a]!r}, asked for {b!r}')
        head(g['meta'], k, f'image {i}')
        c.check(g['meta'].get('IMAGE_FILENAME') == g['file'], 'image-meta', str(g['meta'].get('IMAGE_FILENAME')))
    for kx, (i, d) in exp.items():
        a = out[kx]
        c.check(len(a) == 1 and np.allclose(a[0][1], d, rtol=1e-6) and len(a[0][1]) == len(d), 'apertures', f'{a} for {d}')
        got_ids += [x[0] for x in a]
        t = a[0][2]
        c.check(str(a[0][0]) in t and t.count(',') == len(d), 'aperture-text', t)
    c.check(len(set(got_ids)) == len(got_ids), 'ids-unique', str(got_ids))
    # groups
    c.check(out['len'] == n, 'group-len', f"{out['len']} / {n}")
    keys = {}
    for i, (w, k) in enumerate(want):
        kk = k['FILTER'] if how != 'pattern' else k['OBSFILE'].split('_')[1]
        keys.setdefault(kk, []).append(out[f'im{i}']['id'])
    for nm in ('tree', 'mtree'):
        t = {a: [x['id'] for x in b] for a, b in out[nm]}
        c.check(t == keys, 'group-split', lambda: f'{nm}: {t}, by keyword {keys}')
        c.check(list(t) == list(keys), 'group-order', lambda: f'{nm}: {list(t)} / {list(keys)}')
    c.check(out['sub'] == [[a, b] for a, b in keys.items()], 'group-item', str(out['sub']))
    c.check(out['glen'] == [len(keys)] * 2, 'group-count', f"{out['glen']} groups for {list(keys)}")
    c.counter('images', n)
    c.counter('apertures', len(exp))
    c.sig(f'{files} {[w for w, _ in want]}')
    c.sample(f'{nf} files, {n} images, split by {how} into {list(keys)}')



def tan_world(k, x, y):
    """0-based pixel to the sky, gnomonic"""
    swap = k['CTYPE1'].startswith('DEC')
    u, v = x + 1 - k['CRPIX1'], y + 1 - k['CRPIX2']
    X, Y = k['CD1_1'] * u + k['CD1_2'] * v, k['CD2_1'] * u + k['CD2_2'] * v
    a0, d0 = k['CRVAL1'], k['CRVAL2']
    if swap:
        X, Y, a0, d0 = Y, X, d0, a0
    X, Y, d = np.radians(X), np.radians(Y), math.radians(d0)
    den = math.cos(d) - Y * math.sin(d)
    return (a0 + np.degrees(np.arctan2(X, den))) % 360, np.degrees(np.arctan2((math.sin(d) + Y * math.cos(d)) * np.cos(np.arctan2(X, den)), den))


@section('c12_world', 24, 400)
def c12_world(c):
    """every row is at the sky position its own header gives to its pixel position"""
    rng = c.rng
    hd = []
    for i in range(rng.choice([1, 1, 2, 3])):
        w, h = rng.randint(40, 110), rng.randint(40, 110)
        img, _ = scene(rng, w, h, rng.randint(3, 8), 1.0, 0.0, fmin=500, fmax=2e4, smax=2.0)
        sc = 10 ** rng.uniform(-4.5, -2.5)
        k = tan_wcs(w, h, ra=rng.choice([0.0, 359.9999, rng.uniform(0, 360)]), dec=rng.uniform(-80, 80), scale=sc, rot=rng.uniform(0, 6), flip=rng.choice([-1, 1]), crpix=(rng.uniform(-200, 200), rng.uniform(-200, 200)))
        if rng.random() < .2:
            for a, b in (('CTYPE1', 'CTYPE2'), ('CRVAL1', 'CRVAL2'), ('CD1_1', 'CD2_1'), ('CD1_2', 'CD2_2')):
                k[a], k[b] = k[b], k[a]
        hd.append((img, k, sc))
    write_fits(c.dir + '/det.fits', [(a, k) for a, k, _ in hd], primary_empty=rng.random() < .4)
    r = run(opts({'detection-image': 'det.fits', 'output-catalog-filename': 'cat.fits', 'output-properties': 'SourceIDs,PixelCentroid,WorldCentroid,HduNumber', 'detection-threshold': 3,
                  'thread-count': rng.choice([0, 2, 4])}), c.dir)
    if not fail_run(c, r, 'world'):
        return
    cat = read_catalogue(c.dir + '/cat.fits')
    c.sig(str([(a.shape, sorted(k.items())) for a, k, _ in hd]))
    for q in cat.rows():
        img, k, sc = hd[int(q['hdu_number'])]
        x, y = float(q['pixel_centroid_x']) - 1, float(q['pixel_centroid_y']) - 1
        a, d = tan_world(k, x, y)
        ga, gd = float(q['world_centroid_alpha']), float(q['world_centroid_delta'])
        off = math.hypot((ga - a + 180) % 360 - 180, gd - d) if abs(d) > 89.9 else math.hypot(((ga - a + 180) % 360 - 180) * math.cos(math.radians(d)), gd - d)
        c.counter('world rows')
        c.check(off < 2e-3 * sc + 1e-9, 'world-centroid', f'row of HDU {q["hdu_number"]} at pixel {x},{y} is at {ga},{gd} instead of {a},{d} ({off / sc:.4g} px), {k}')



COLS = {   # what every output property is documented to deliver: i whole, f real, v/n lists of them
    'AutoPhotometry': ['auto_flux:vf', 'auto_flux_err:vf', 'auto_mag:vf', 'auto_mag_err:vf', 'auto_flags:vi'],
    'ErrorEllipse': ['error_ellipse_a:f', 'error_ellipse_b:f', 'error_ellipse_theta:f', 'error_centroid_x2:f', 'error_centroid_y2:f', 'error_centroid_xy:f'],
    'ExternalFlags': ['isophotal_image_flags:i', 'isophotal_image_flags_pixel_count:i'],
    'FluxRadius': ['flux_radius:nf'],
    'GroupInfo': ['group_id:i'],
    'GroupStamp': ['group_stamp_top:i', 'group_stamp_left:i', 'group_stamp_width:i', 'group_stamp_height:i'],
    'GrowthCurve': ['flux_growth_step:vf', 'flux_growth:nf'],
    'HduNumber': ['hdu_number:i'],
    'IsophotalFlux': ['isophotal_flux:f', 'isophotal_flux_err:f', 'isophotal_mag:f', 'isophotal_mag_err:f'],
    'KronRadius': ['kron_radius:f', 'kron_flag:i'],
    'MoffatModelFitting': ['smf_x:f', 'smf_y:f', 'smf_iter:i'],
    'NCorePixel': ['n_core_pixel:i'],
    'NDetectedPixels': ['n_detected_pixels:i'],
    'PeakValue': ['peak_value:f', 'peak_value_x:i', 'peak_value_y:i'],
    'PixelBoundaries': ['pixel_boundaries_min_x:i', 'pixel_boundaries_min_y:i', 'pixel_boundaries_max_x:i', 'pixel_boundaries_max_y:i'],
    'PixelCentroid': ['pixel_centroid_x:f', 'pixel_centroid_y:f'],
    'SNRRatio': ['snrratio:f'],
    'ShapeParameters': ['ellipse_a:f', 'ellipse_b:f', 'ellipse_theta:f', 'ellipse_cxx:f', 'ellipse_cyy:f', 'ellipse_cxy:f', 'area:f', 'elongation:f', 'ellipticity:f'],
    'SourceFlags': ['source_flags:vi'],
    'SourceIDs': ['source_id:i', 'detection_id:i'],
    'Vignet': ['vignet:nf'],
    'WorldCentroid': ['world_centroid_alpha:f', 'world_centroid_delta:f'],
}


def kind_of(t):
    return t.replace('l', 'i').replace('d', 'f')


@section('c19_formats', 40, 600)
def c19_formats(c):
    """the same run written in other formats, with other flush sizes and threads, row by row"""
    rng = c.rng
    n = rng.choice([1, 1, 2, 3])
    hd, some = [], []
    for i in range(n):
        w, h = rng.randint(40, 100), rng.randint(40, 100)
        blank = rng.random() < .25
        img, _ = scene(rng, w, h, 0 if blank else rng.randint(2, 9), 1.0, 0.0, fmin=400, fmax=2e4, smax=2.0)
        k = dict(tan_wcs(w, h, ra=rng.uniform(1, 359)), OBJECT="it's / here", GAIN=rng.randint(1, 9) / 4, TEXT='x' * rng.choice([1, 20, 66, 68]), TRUTH=True)
        hd.append((img, k))
        some.append(not blank)
    write_fits(c.dir + '/det.fits', hd)
    flags = n == 1 and rng.random() < .4
    props = [rng.choice(sorted(COLS)) for _ in range(rng.randint(1, 7))]
    props = [p for p in props if p != 'ExternalFlags' or flags]
    props = ['SourceIDs', 'HduNumber', 'PixelCentroid'] + props
    rng.shuffle(props)
    o = {'detection-image': 'det.fits', 'output-properties': ','.join(props), 'detection-threshold': 6, 'detection-minimum-area': 4, 'core-minimum-area': 3}
    names = []
    if flags:
        for nm in ('one', 'two'):
            write_fits(c.dir + f'/{nm}.fits', [(np.full(hd[0][0].shape, 3 if nm == 'one' else 4, np.int32), {}, 32)])
            if n == 1:
                o.update({f'flag-image-{nm}': f'{nm}.fits', f'flag-type-{nm}': 'OR'})
                names.append(nm)
    base = dict(o, **{'output-catalog-filename': 'base.fits', 'output-catalog-format': 'FITS', 'thread-count': 1})
    r = run(opts(base), c.dir)
    if not fail_run(c, r, 'base'):
        return
    cat = read_catalogue(c.dir + '/base.fits')
    want = []
    for p in dict.fromkeys(props):
        for x in COLS[p]:
            nm, k = x.split(':')
            want += [(f'{nm}_{q}', k) for q in names] if p == 'ExternalFlags' else [(nm, k)]
    if flags and n > 1:
        want = [x for x in want if not x[0].startswith('isophotal_image')]
    if len(cat):
        q = cat.parts[0]
        got = sorted(zip(q[1], map(kind_of, q[2])))
        c.check(got == sorted(want), 'columns', f'properties {props}: columns {got} instead of {sorted(want)}')
    # one part per frame with detections
    per = {}
    for q in cat.parts:
        for row in q[4]:
            per.setdefault(q[0], []).append(int(dict(zip(q[1], row))['hdu_number']))
    exp = {('CATALOG' if not i else f'CATALOG_{i}') for i in range(n) if any(i in v for v in per.values())}
    for nm, v in per.items():
        i = int(nm.split('_')[1]) if '_' in nm else 0
        c.check(set(v) == {i}, 'part-frame', f'part {nm} holds rows of frames {sorted(set(v))}')
    found = {i for v in per.values() for i in v}
    c.check({i for i in range(n) if some[i]} <= found, 'frame-lost', f'frames with sources {some}, rows of {sorted(found)}')
    c.check(len({x['source_id'] for x in cat.rows()}) == len(cat), 'row-repeated', f'source ids {[x["source_id"] for x in cat.rows()]}')
    if names and len(cat) and 'ExternalFlags' in props:
        for x in cat.rows():
            for nm, v in (('one', 3), ('two', 4)):
                c.check(x[f'isophotal_image_flags_{nm}'] == v, 'instance', f'flag of image {nm} is {x["isophotal_image_flags_" + nm]} instead of {v}')
    cols = cat.columns
    ref = [{k: v for k, v in x.items() if k != 'group_id'} for x in cat.rows()]
    for j in range(3):
        f, fl, th, so = rng.choice(['ASCII', 'FITS', 'FITS_LDAC', 'fits', 'stdout']), rng.choice([0, 1, 2, 3, 7, 100, -1]), rng.choice([0, 1, 2, 4]), rng.random() < .8
        v = dict(o, **{'output-flush-size': fl, 'thread-count': th, 'output-flush-sorted': so})
        if f != 'stdout':
            v.update({'output-catalog-filename': f'v{j}.cat', 'output-catalog-format': f})
            if rng.random() < .3:
                open(c.dir + f'/v{j}.cat', 'w').write('#HDU OLD\tx\n#TYPES\ti|\n1\t\n')
        else:
            v['output-catalog-format'] = rng.choice(['FITS', 'ASCII'])
        r = run(opts(v), c.dir)
        if not fail_run(c, r, f'{f} flush {fl}'):
            return
        what = f'{f} flush {fl} threads {th} sorted {so} properties {props}'
        if f == 'stdout':
            open(c.dir + f'/v{j}.cat', 'w').write('#HDU \t' + '\t'.join(cols) + '\n#TYPES\t' + '\t'.join(a + '|' + b for a, b in zip(cat.parts[0][2], cat.parts[0][3])) + '\n' + r.out if cols else '')
        got = read_catalogue(c.dir + f'/v{j}.cat')
        if f == 'FITS_LDAC':
            heads = [q for q in got.parts if q[0].startswith('LDAC_IMHEAD')]
            got.parts = [q for q in got.parts if not q[0].startswith('LDAC_IMHEAD')]
            c.check([q[0].replace('IMHEAD', 'OBJECTS') for q in heads] == [q[0] for q in got.parts], 'ldac-parts', f'{what}: {[q[0] for q in heads]} and {[q[0] for q in got.parts]}')
            for q in heads:
                s = q[4][0][0]
                i = int(q[0].split('_')[2]) if q[0].count('_') > 1 else 0
                cards = [s[a:a + 80] for a in range(0, len(s), 80)]
                at = {x[:8].strip(): x[10:] for x in cards}
                c.check(len(s) % 80 == 0 and 'END' in at and at.get('TEXT', '').startswith("'" + hd[i][1]['TEXT']) and abs(float(at.get('CRVAL1', '0').split('/')[0]) - hd[i][1]['CRVAL1']) < 1e-9,
                        'ldac-header', f'{what}: header of {q[0]} does not repeat the one of the image: {cards}')
        names_want = [q[0].replace('CATALOG', 'LDAC_OBJECTS') if f == 'FITS_LDAC' else q[0] for q in cat.parts]
        if f in ('FITS', 'fits', 'FITS_LDAC'):
            c.check([q[0] for q in got.parts] == names_want and [len(q[4]) for q in got.parts] == [len(q[4]) for q in cat.parts], 'parts',
                    f'{what}: parts {[(q[0], len(q[4])) for q in got.parts]} instead of {[(a, len(q[4])) for a, q in zip(names_want, cat.parts)]}')
        else:
            c.check(len(got.parts) <= 1, 'parts', f'{what}: parts {[(q[0], len(q[4])) for q in got.parts]}')
        rows = [{k: x for k, x in y.items() if k != 'group_id'} for y in got.rows()]
        a, b = ref, rows
        if not so:
            a, b = sorted(a, key=lambda x: x['source_id']), sorted(b, key=lambda x: x['source_id'])
        bad = 'row count' if len(a) != len(b) else next((f'row {i} column {k}: {y.get(k)} instead of {x[k]}' for i, (x, y) in enumerate(zip(a, b)) for k in x if k not in y or not np.array_equal(x[k], y[k], equal_nan=True)), None)
        c.check(bad is None, 'rows', f'{what}: {bad}, {len(b)} rows instead of {len(a)}')
        c.check(not rows or list(got.columns) == list(cols), 'columns-differ', f'{what}: columns {got.columns} instead of {cols}')
        c.counter('rows compared', len(b))
    c.sig(f'{n} {some} {sorted(set(props))}')


if __name__ == '__main__':
    sys.exit(main())
