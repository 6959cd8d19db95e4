"""Monitors of the whole program: random images and settings, and an oracle over the files it writes."""
import math, os, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sepp
from sepp import *
from e2e_main import section, main

IDPROPS = ['SourceIDs', 'PixelBoundaries', 'NDetectedPixels', 'GroupInfo', 'PeakValue', 'PixelCentroid']
F32MAX = float(np.finfo(np.float32).max)


def fail_run(c, r, what='run'):
    """judges a run that had to succeed; True when it did"""
    if r.timeout:
        c.fail(f'{what}-hang', f'no end within the time limit, twice: {r.cmd}')
    elif r.crashed:
        c.fail(f'{what}-' + crash_key(r), f'{r.cmd}\n{r.err[-1200:]}')
    elif r.rc != 0:
        c.fail(f'{what}-refused', f'exit {r.rc}: {r.err[-600:]}\n{r.cmd}')
    else:
        return True
    return False


def clean_exit(c, r, what):
    """judges a run that may fail or succeed, but must do so in order"""
    if r.timeout:
        c.fail(f'{what}-hang', f'no end within the time limit, twice: {r.cmd}')
    elif r.crashed:
        c.fail(f'{what}-' + crash_key(r), f'{r.cmd}\n{r.err[-1200:]}')
    else:
        c._s['evaluations'] += 1
        return True
    return False


def opts(d):
    res = []
    for k, v in d.items():
        if v is None:
            continue
        res += [f'--{k}', 'true' if v is True else 'false' if v is False else str(v)]
    return res


def kernel_of(rng):
    """-> (text of a filter file or None for the default, array, normalise)"""
    k = rng.random()
    if k < .5:
        return None, np.array([[1, 2, 1], [2, 4, 2], [1, 2, 1]], float), True
    n = rng.choice([1, 3, 3, 5, 7])
    m = rng.choice([n, 1, 3])
    a = np.array([[rng.uniform(.05, 1) for _ in range(n)] for _ in range(m)])
    a = a + a[::-1, ::-1]          # point symmetric: correlation and convolution agree
    a = np.round(a, 4)
    norm = rng.random() < .7
    return '# test filter\nCONV ' + ('NORM' if norm else 'NONORM') + f'\n# {n}x{m}\n' + '\n'.join(' '.join(repr(float(x)) for x in row) for row in a) + '\n', a, norm


def conv(img, k):
    kh, kw = k.shape
    p = np.pad(img, ((kh // 2, kh // 2), (kw // 2, kw // 2)))
    out = np.zeros(img.shape)
    for j in range(kh):
        for i in range(kw):
            out += k[j, i] * p[j:j + img.shape[0], i:i + img.shape[1]]
    return out


def label8(mask):
    """8-connected components by flood fill"""
    h, w = mask.shape
    lab = np.zeros((h, w), int)
    n = 0
    for y, x in zip(*np.nonzero(mask)):
        if lab[y, x]:
            continue
        n += 1
        stack = [(y, x)]
        lab[y, x] = n
        while stack:
            b, a = stack.pop()
            for j in range(max(0, b - 1), min(h, b + 2)):
                for i in range(max(0, a - 1), min(w, a + 2)):
                    if mask[j, i] and not lab[j, i]:
                        lab[j, i] = n
                        stack.append((j, i))
    return lab, n


def detection_setup(c, allow=('weight', 'bg', 'partition', 'clean', 'group', 'threads', 'tiles', 'filter'), size=(40, 220), nsrc=(0, 60), wcs=True):
    """Random image and options. -> dict with image, files, o (options), and what the oracle needs"""
    rng = c.rng
    w, h = rng.randint(*size), rng.randint(*size)
    if rng.random() < .1:
        w, h = rng.choice([(1, 60), (70, 1), (5, 5), (16, 16), (33, 200)])
    n = rng.randint(*nsrc) * w * h // 20000 + rng.randint(0, 3)
    sky = rng.choice([0, 0, 50.0, 1000.0])
    noise = rng.choice([.5, 1, 3])
    img, src = scene(rng, w, h, n, noise, sky, fmin=60 * noise, fmax=2e4 * noise, smax=rng.choice([1.5, 2.5, 4]))
    g = np.random.default_rng(rng.getrandbits(60))
    s = dict(w=w, h=h, src=src, noise=noise, sky=sky, gen=g)
    o = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.txt', 'output-catalog-format': 'ASCII'}
    keys = tan_wcs(w, h, scale=rng.choice([5e-5, 2e-4]), rot=rng.uniform(0, 6)) if wcs else {}
    s['keys'] = keys
    s['img'] = img
    o['detection-threshold'] = s['thr'] = round(rng.uniform(1.2, 4), 3)
    if 'bg' in allow and rng.random() < .4:
        s['bg'] = None
        o['background-cell-size'] = rng.choice([16, 32, 64])
        o['smoothing-box-size'] = rng.choice([1, 3])
    else:
        o['background-value'] = s['bg'] = float(sky)
    var = None
    if 'weight' in allow and rng.random() < .6:
        wt = rng.choice(['rms', 'variance', 'weight'])
        rms = noise * g.uniform(.8, 1.25, (h, w))
        bad = np.zeros((h, w), bool)
        badk = rng.random()
        thr = None
        if badk < .5:
            for _ in range(rng.randint(1, 6)):
                x, y = rng.randrange(w), rng.randrange(h)
                if rng.random() < .5:
                    bad[y, x] = True
                elif rng.random() < .5:
                    bad[y:y + rng.randint(1, 9), x:x + rng.randint(1, 9)] = True
                else:
                    bad[:, x] = True
            if wt == 'weight' and rng.random() < .5:
                wmap = np.where(bad, 0, 1 / rms ** 2)
            else:
                bigrms = 50 * noise
                rms = np.where(bad, bigrms, rms)
                wmap = {'rms': rms, 'variance': rms ** 2, 'weight': 1 / rms ** 2}[wt]
                t = 10 * noise
                thr = {'rms': t, 'variance': t * t, 'weight': 1 / (t * t)}[wt]
            if wt == 'weight' and thr is None and rng.random() < .5:
                thr = 1 / (100 * noise ** 2)
        else:
            wmap = {'rms': rms, 'variance': rms ** 2, 'weight': 1 / rms ** 2}[wt]
        wmap = wmap.astype(np.float32)
        scaling = rng.choice([1.0, 1.0, 2.0])
        write_fits(c.dir + '/wt.fits', [(wmap / (np.float32(scaling)), {})])
        o.update({'weight-image': 'wt.fits', 'weight-type': wt, 'weight-absolute': True})
        if scaling != 1:
            o['weight-scaling'] = scaling
        if thr is not None:
            o['weight-threshold'] = repr(float(thr))
        wm = wmap.astype(float)
        with np.errstate(divide='ignore'):
            var = {'rms': wm ** 2, 'variance': wm, 'weight': np.where(wm > 0, 1 / np.where(wm > 0, wm, 1), np.inf)}[wt]
        s['bad'] = bad
        s['varthr'] = F32MAX if thr is None else {'rms': thr ** 2, 'variance': thr, 'weight': 1 / thr if thr else 0}[wt]
        gap = rng.choice([0, 5, 5])
        s['gap'] = gap
        if rng.random() < .5:
            o['detection-image-interpolation'] = False
            s['gap'] = 0
        elif gap != 5:
            o['detection-image-interpolation-gap'] = gap
    else:
        s['bad'] = np.zeros((h, w), bool)
        s['varthr'] = None
        s['gap'] = 5
    s['var'] = var
    if 'filter' in allow:
        if rng.random() < .35:
            o['segmentation-use-filtering'] = False
            s['kernel'] = None
        else:
            txt, k, norm = kernel_of(rng)
            if txt:
                with open(c.dir + '/filt.conv', 'w') as f:
                    f.write(txt)
                o['segmentation-filter'] = 'filt.conv'
            s['kernel'], s['norm'] = k, norm
    s['algo'] = 'LUTZ'
    if rng.random() < .35:
        s['algo'] = o['segmentation-algorithm'] = 'BFS'
        o['segmentation-bfs-max-delta'] = 100000
    elif rng.random() < .2:
        o['segmentation-lutz-window-size'] = max(h, w) + 5
    s['levels'] = 0
    o['detection-minimum-area'] = s['minarea'] = rng.choice([1, 3, 3, 5])
    s['multithr'] = s['attr'] = False
    if 'partition' in allow:
        if rng.random() < .5:
            s['attr'] = o['use-attractors-partition'] = True
        s['multithr'] = rng.random() < .5
        o['partition-multithreshold'] = s['multithr']
        if s['multithr']:
            o['partition-minimum-area'] = rng.choice([3, 5])
            o['partition-minimum-contrast'] = rng.choice([.0005, .005, .05])
            o['partition-threshold-count'] = rng.choice([8, 32])
    s['clean'] = 'clean' in allow and rng.random() < .3
    o['use-cleaning'] = s['clean']
    if 'group' in allow:
        o['grouping-algorithm'] = rng.choice(['none', 'overlap', 'split', 'split'])
        if rng.random() < .3:
            o['grouping-hard-limit'] = rng.choice([1, 2, 5])
    if 'threads' in allow:
        o['thread-count'] = rng.choice([0, 1, 2, 8])
        if rng.random() < .3:
            o['thread-max-queue-size'] = rng.choice([1, 2, 100])
    if 'tiles' in allow:
        o['tile-size'] = rng.choice([8, 16, 50, 256])
        o['tile-memory-limit'] = rng.choice([1, 1, 512])
    s['o'] = o
    return s


def write_detection(c, s, bitpix=-32, hdus=None):
    write_fits(c.dir + '/det.fits', [(s['img'], s['keys'], bitpix)])


def columns_check(c, cat, cols):
    miss = [x for x in cols if x not in cat.columns]
    return c.check(not miss, 'columns-missing', f'{miss} not in {cat.columns}')


CHECKS = {'segmentation': 'seg', 'partition': 'part', 'grouping': 'grp', 'background': 'bg', 'variance': 'var', 'filtered': 'filt', 'thresholded': 'thr', 'snr': 'snr'}


def checks_on(o):
    for k, v in CHECKS.items():
        o['check-image-' + k] = v + '.fits'


def load_checks(c, s, names=CHECKS.values()):
    res = {}
    for v in names:
        p = f'{c.dir}/{v}.fits'
        if not c.check(os.path.exists(p), 'check-image-missing', v):
            return None
        try:
            res[v] = read_image(p)
        except sepp.HarnessError as e:
            c.fail('check-image-unreadable', f'{v}: {e}')
            return None
        if not c.check(res[v].shape == (s['h'], s['w']), 'check-image-size', f'{v} is {res[v].shape}, the detection image {(s["h"], s["w"])}'):
            return None
    return res


def describe(s):
    return f"{s['w']}x{s['h']} {len(s['src'])} sources, " + ' '.join(f'{k}={v}' for k, v in s['o'].items() if not k.startswith(('check-', 'output-c', 'detection-image ')))


# ------------------------------------------------------------------------------------------------------------ C25
@section('c25_ids', 60, 260)
def c25_ids(c):
    s = detection_setup(c)
    write_detection(c, s)
    checks_on(s['o'])
    s['o']['output-properties'] = ','.join(IDPROPS)
    r = run(opts(s['o']), c.dir)
    if not fail_run(c, r):
        return
    cat, im = read_catalogue(c.dir + '/cat.txt'), load_checks(c, s)
    if im is None:
        return
    rows = cat.rows()
    if rows and not columns_check(c, cat, ['source_id', 'detection_id', 'n_detected_pixels', 'pixel_boundaries_min_x', 'group_id', 'peak_value_x']):
        return
    check_ids(c, s, rows, im)
    check_layers(c, s, im)
    c.counter('catalogue rows', len(rows))
    c.counter('detections', len(np.unique(im['seg'])) - 1)
    c.sig(describe(s))
    c.sample(f'{describe(s)} -> {len(rows)} rows')


def check_ids(c, s, rows, im):
    seg, part, grp = im['seg'], im['part'], im['grp']
    ids = [r['source_id'] for r in rows]
    c.check(len(set(ids)) == len(ids), 'source-id-repeated', f'{len(ids)} rows, {len(set(ids))} ids')
    found = set(np.unique(part)) - {0}
    c.check(found == set(ids), 'partition-ids', lambda: f'partition image has {sorted(found - set(ids))[:8]} that are not in the catalogue, lacks {sorted(set(ids) - found)[:8]}')
    # the owner of each pixel is unique: the detected pixels of the sources fill the image exactly
    for r in rows:
        m = part == r['source_id']
        n = int(m.sum())
        c.check(n == r['n_detected_pixels'], 'partition-count', lambda: f"source {r['source_id']}: {n} pixels in the partition image, n_detected_pixels {r['n_detected_pixels']}")
        if not n:
            continue
        ys, xs = np.nonzero(m)
        b = (xs.min(), ys.min(), xs.max(), ys.max())
        e = tuple(r['pixel_boundaries_' + k] for k in ('min_x', 'min_y', 'max_x', 'max_y'))
        c.check(b == e, 'partition-bounds', lambda: f"source {r['source_id']}: pixels span {b}, pixel_boundaries {e}")
        px, py = r['peak_value_x'] - 1, r['peak_value_y'] - 1
        c.check(0 <= px < s['w'] and 0 <= py < s['h'] and m[py, px], 'peak-not-own', lambda: f"source {r['source_id']}: peak at {(px, py)} is not one of its pixels")
        gv = set(np.unique(grp[m]))
        c.check(gv == {r['group_id']}, 'group-id', lambda: f"source {r['source_id']}: group image has {gv} on its pixels, group_id is {r['group_id']}")
        sv = set(np.unique(seg[m]))
        c.check(0 not in sv, 'source-outside-detection', lambda: f"source {r['source_id']} has pixels with no detection")
        if not s['clean']:
            c.check(len(sv) == 1, 'source-spans-detections', lambda: f"source {r['source_id']} covers detections {sv}")
        c.check(r['detection_id'] in sv, 'detection-id', lambda: f"source {r['source_id']} has detection_id {r['detection_id']}, segmentation image {sv} on its pixels")
    c.check(bool(((grp != 0) == (part != 0)).all()), 'group-extent', lambda: f'{int(((grp != 0) != (part != 0)).sum())} pixels are in a group but in no source or the reverse')
    # segmentation is the thresholded image's 8-connected regions
    thr = im['thr']
    det = thr > 0
    d = (seg != 0) != det
    c.check(not d.any(), 'segmentation-vs-threshold', lambda: f'{int(d.sum())} pixels, first {tuple(np.argwhere(d)[0])}: segmentation {seg[tuple(np.argwhere(d)[0])]}, thresholded {thr[tuple(np.argwhere(d)[0])]}')
    if not d.any():
        lab, n = label8(det)
        pairs = set(zip(lab[det].tolist(), seg[det].tolist()))
        c.check(len(pairs) == n and len({b for _, b in pairs}) == n, 'segmentation-regions', lambda: f'{n} regions above threshold, {len({b for _, b in pairs})} ids, {len(pairs)} pairs')


def check_layers(c, s, im):
    img = s['img'].astype(float)
    bg, var, filt, thr, snr = (im[k].astype(float) for k in ('bg', 'var', 'filt', 'thr', 'snr'))
    tol = 1e-5 * (np.abs(img).max() + np.abs(bg).max() + 1)
    if s['bg'] is not None:
        c.check(bool(np.all(im['bg'] == np.float32(s['bg']))), 'background-value', lambda: f"background-value {s['bg']}, check image {bg.min()}..{bg.max()}")
    bad = s['bad'] if s['var'] is not None else np.zeros(img.shape, bool)
    if s['var'] is not None:
        e = s['var']
        usable = e < s['varthr']
        cmp = usable & (e < 1e30)
        e = np.where(np.isfinite(e), e, 1e30)
        var = np.where(np.isfinite(var), var, 1e30)
        dd = np.abs(var - e) > 1e-5 * np.where(cmp, e, 0) + 1e-12
        d = cmp & dd
        c.check(not d.any(), 'variance-image', lambda: f'{int(d.sum())} pixels; at {tuple(np.argwhere(d)[0])}: {var[tuple(np.argwhere(d)[0])]}, from the weight map {e[tuple(np.argwhere(d)[0])]}')
        if s['gap'] == 0:
            d = ~usable & dd & (np.abs(var - e) > 1e-5 * e)
            c.check(not d.any(), 'variance-image-bad', lambda: f'{int(d.sum())} unusable pixels changed their variance')
    else:
        usable = np.ones(img.shape, bool)
    # pixels near unusable ones may be interpolated: leave them to the tests of the views
    k = s['kernel']
    sub = img - bg
    ok = usable
    if bad.any() and s['gap']:
        near = conv(bad.astype(float), np.ones((max(k.shape[0] if k is not None else 1, 1) + 2, max(k.shape[1] if k is not None else 1, 1) + 2))) > 0
    else:
        near = np.zeros(img.shape, bool)
    if k is None:
        e, t = sub, tol
    else:
        kk = k / k.sum() if s['norm'] else k
        num, den = conv(np.where(ok, sub, 0), kk), conv(ok.astype(float), kk)
        with np.errstate(divide='ignore', invalid='ignore'):
            e = np.where(ok & (den > 0), num / den * (1 if s['norm'] else 1), 0)
        t = tol * 30
        if not s['norm']:
            # not normalised: on full support the plain sum
            full = den > kk.sum() * (1 - 1e-9)
            e2 = conv(sub, kk)
            e = np.where(full, e2 / 1.0, np.nan)
            e = np.where(ok, e, 0)
            e = np.where(full | ~ok, e, np.nan)
            # the implementation divides by the kernel's weight on usable pixels times its total
            alt = np.where(ok & (den > 0), num / np.where(den > 0, den, 1), 0)
            s['nonorm'] = (alt, e)
    if k is not None and not s['norm']:
        alt, plain = s['nonorm']
        da = (np.abs(filt - alt) > t) & ~near
        dp = np.isfinite(plain) & (np.abs(filt - plain) > t * max(1, kk.sum())) & ~near
        c.check(not da.any() or not dp.any(), 'filtered-image', lambda: f'not normalised: {int(da.sum())} pixels differ from the mean, {int(dp.sum())} from the sum')
    else:
        d = (np.abs(filt - e) > t) & ~near
        c.check(not d.any(), 'filtered-image', lambda: f'{int(d.sum())} pixels; at {tuple(np.argwhere(d)[0])}: {filt[tuple(np.argwhere(d)[0])]}, weighted mean {e[tuple(np.argwhere(d)[0])]} (tolerance {t})')
    # thresholded and SNR: (filtered - thresholded) is thr*sigma, filtered/snr is sigma
    sig = (filt - thr) / s['thr']
    good = np.isfinite(sig) & np.isfinite(snr) & (sig > 0) & usable & ~near
    d = good & (np.abs(snr * sig - filt) > 1e-3 * np.abs(filt) + tol * (1 + np.abs(snr)) / s['thr'])
    c.check(not d.any(), 'snr-vs-threshold', lambda: f'{int(d.sum())} pixels; at {tuple(np.argwhere(d)[0])}: filtered {filt[tuple(np.argwhere(d)[0])]}, thresholded {thr[tuple(np.argwhere(d)[0])]}, snr {snr[tuple(np.argwhere(d)[0])]}, threshold {s["thr"]}')
    # sigma: root of the variance (map averaged with the same kernel)
    v = np.where(np.isfinite(var) & (var < 1e29), var, 0)
    if k is not None:
        with np.errstate(divide='ignore', invalid='ignore'):
            ev = conv(np.where(ok, v, 0), kk) / conv(ok.astype(float), kk)
    else:
        ev = v
    scale = 1.0
    if k is not None and not s['norm']:
        good &= False
    d = good & (np.abs(sig - np.sqrt(np.maximum(ev, 0))) > 2e-3 * np.sqrt(np.maximum(ev, 0)) + tol / s['thr'])
    c.check(not d.any(), 'threshold-sigma', lambda: f'{int(d.sum())} pixels; at {tuple(np.argwhere(d)[0])}: sigma {sig[tuple(np.argwhere(d)[0])]}, variance map gives {math.sqrt(ev[tuple(np.argwhere(d)[0])])}')
    c.counter('pixels compared', 5 * img.size)


@section('c25_multi', 10, 120)
def c25_multi(c):
    """several detection HDUs of different sizes"""
    rng = c.rng
    n = rng.randint(2, 4)
    empty = rng.random() < .4
    hd, setups = [], []
    for i in range(n):
        w, h = rng.randint(20, 120), rng.randint(20, 120)
        noise = 1
        img, src = scene(rng, w, h, rng.randint(1, 8), noise, 0, fmin=300, fmax=2e4)
        keys = tan_wcs(w, h, ra=30 + i, scale=1e-4)
        keys['GAIN'] = float(rng.choice([1.0, 2.5]))
        setups.append(dict(w=w, h=h, img=img, keys=keys, src=src))
        hd.append((img, keys, -32))
    write_fits(c.dir + '/det.fits', hd, primary_empty=empty)
    var = [rng.uniform(.5, 2) for _ in range(n)]
    o = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.txt', 'output-catalog-format': 'ASCII', 'background-value': 0.0, 'detection-threshold': 3,
         'output-properties': ','.join(IDPROPS + ['HduNumber', 'WorldCentroid', 'IsophotalFlux']), 'thread-count': rng.choice([0, 1, 4]), 'tile-size': rng.choice([16, 256]),
         'tile-memory-limit': rng.choice([1, 512]), 'use-cleaning': False, 'partition-multithreshold': rng.random() < .5, 'segmentation-algorithm': rng.choice(['LUTZ', 'BFS']),
         'segmentation-bfs-max-delta': 100000, 'output-flush-size': rng.choice([1, 3, 100])}
    weighted = rng.random() < .5
    if weighted:
        write_fits(c.dir + '/wt.fits', [(np.full((s['h'], s['w']), v, np.float32), {}) for s, v in zip(setups, var)], primary_empty=empty)
        o.update({'weight-image': 'wt.fits', 'weight-type': 'variance', 'weight-absolute': True})
    checks_on(o)
    r = run(opts(o), c.dir)
    if not fail_run(c, r):
        return
    cat = read_catalogue(c.dir + '/cat.txt')
    rows = cat.rows()
    hdus = [x['hdu_number'] for x in rows]
    c.check(hdus == sorted(hdus), 'rows-by-hdu', f'hdu_number of the rows: {hdus}')
    first = min(hdus) if hdus else 0
    for i, s in enumerate(setups):
        s.update(clean=False, bg=0.0, var=np.full((s['h'], s['w']), var[i]) if weighted else None, bad=np.zeros((s['h'], s['w']), bool), varthr=F32MAX if weighted else None, gap=5,
                 kernel=np.array([[1, 2, 1], [2, 4, 2], [1, 2, 1]], float), norm=True, thr=3.0, o=o)
        im = load_checks(c, s, [f'{v}_{i}' for v in CHECKS.values()])
        if im is None:
            continue
        im = {k[:-2]: v for k, v in im.items()}
        mine = [x for x in rows if x['hdu_number'] == i]
        check_ids(c, s, mine, im)
        check_layers(c, s, im)
        c.counter('catalogue rows', len(mine))
        # the check images of an extension carry its own coordinates
        for v in ('seg', 'part', 'grp', 'filt'):
            hh = [h for h, d in read_fits(f'{c.dir}/{v}_{i}.fits') if d is not None][0]
            bad = [k for k in ('CRVAL1', 'CRVAL2', 'CRPIX1', 'CRPIX2') if abs(float(hh.get(k, 1e9)) - s['keys'][k]) > 1e-6 * abs(s['keys'][k])]
            c.check(not bad, 'check-image-wcs', lambda: f'{v}_{i}: {[(k, hh.get(k), s["keys"][k]) for k in bad]}')
        for x in mine:
            c.check(abs(x['world_centroid_alpha'] - s['keys']['CRVAL1']) < .2, 'row-of-other-hdu', lambda: f"hdu {i}: world position {x['world_centroid_alpha']}")
    known = set(range(n))
    c.check(set(hdus) <= known, 'hdu-number', f'hdu_number {set(hdus)} for {n} images')
    for i in range(n):
        c.check(i in hdus or not any(f > 1500 and 4 < x < setups[i]['w'] - 5 and 4 < y < setups[i]['h'] - 5 for x, y, f, *_ in setups[i]['src']), 'hdu-lost', f'nothing detected in image {i} of {n}')
    c.sig(f'{n} {empty} {[(s["w"], s["h"]) for s in setups]}')
    c.sample(f'{n} HDUs{" after an empty primary" if empty else ""}, {len(rows)} rows')


def same_cell(u, v):
    u, v = np.asarray(u), np.asarray(v)
    if u.dtype.kind in 'US':
        return u == v
    u, v = u.astype(float), v.astype(float)
    with np.errstate(invalid='ignore'):
        return u.shape == v.shape and bool(np.all((u == v) | (np.isnan(u) & np.isnan(v)) | (np.abs(u - v) <= 1e-5 * np.abs(u) + 1e-5)))


@section('c25_same', 8, 100)
def c25_same(c):
    """threads and memory limits leave every file as it is"""
    s = detection_setup(c, allow=('weight', 'bg', 'partition', 'group', 'filter'), size=(40, 160))
    write_detection(c, s)
    checks_on(s['o'])
    s['o']['check-image-auto-aperture'] = 'aut.fits'
    s['o']['output-properties'] = ','.join(IDPROPS + ['ShapeParameters', 'IsophotalFlux', 'AutoPhotometry', 'SourceFlags'])
    ref = None
    for k in range(3):
        o = dict(s['o'])
        if k == 0:
            o.update({'thread-count': 0, 'tile-memory-limit': 512, 'tile-size': 1024})
        else:
            o.update({'thread-count': c.rng.choice([2, 4, 8]), 'tile-memory-limit': 1, 'tile-size': c.rng.choice([4, 7, 16, 33]), 'thread-max-queue-size': c.rng.choice([1, 3, 1000]),
                      'output-flush-size': c.rng.choice([1, 7, 100])})
        if s['multithr'] and s['algo'] == 'BFS':
            o['tile-size'] = 32     # the order of the sources follows the tiles, and the random assignment of pixels follows that order
        r = run(opts(o), c.dir)
        if not fail_run(c, r):
            return
        cat = read_catalogue(c.dir + '/cat.txt')
        import glob
        im = {os.path.basename(p): read_image(p) for p in glob.glob(c.dir + '/*.fits') if os.path.basename(p) not in ('det.fits', 'wt.fits')}
        if ref is None:
            ref = (cat, im)
            continue
        # identifiers are handed out in an order that depends on the tiles and the schedule
        cols = [x for x in cat.columns if x not in ('source_id', 'detection_id', 'group_id', 'ellipse_theta')]
        place = ['peak_value_x', 'peak_value_y', 'n_detected_pixels']
        a, b = (sorted(([r[n] for n in place] + [r[n] for n in cols] for r in q.rows()), key=str) for q in (ref[0], cat))
        if c.check(len(a) == len(b), 'same-rows', lambda: f'{len(a)} rows alone, {len(b)} with {o["thread-count"]} threads and tiles of {o["tile-size"]}'):
            for x, y in zip(a, b):
                d = [(n, u, v) for n, u, v in zip(place + cols, x, y) if not same_cell(u, v)]
                if not c.check(not d, 'same-values', lambda: f'threads {o["thread-count"]} tiles {o["tile-size"]}: {d[:5]}'):
                    break
        for n in sorted(set(ref[1]) | set(im)):
            if not c.check(n in im and n in ref[1], 'same-files', n):
                continue
            u, v = ref[1][n], im[n]
            if not c.check(u.shape == v.shape, 'same-size', n):
                continue
            if n[:3] in ('seg', 'par', 'grp'):
                pairs = set(zip(u.ravel().tolist(), v.ravel().tolist()))
                c.check(len(pairs) == len({x for x, _ in pairs}) == len({y for _, y in pairs}), f'same-regions-{n[:3]}', lambda: f'{n}: {len({x for x, _ in pairs})} regions and {len({y for _, y in pairs})}, {len(pairs)} pairs')
                bad = (u == 0) != (v == 0)
            elif n[:3] == 'aut':
                bad = (u == 0) != (v == 0)      # apertures overlap: the last writer is seen
            else:
                with np.errstate(invalid='ignore', over='ignore'):
                    bad = ~((u == v) | (np.isnan(u) & np.isnan(v)) | (np.abs(u.astype(float) - v) <= 1e-5 * np.abs(u) + 3e-6 * np.max(np.abs(u[np.isfinite(u)]), initial=0)))
            c.check(not bad.any(), f'same-image-{n[:3]}', lambda: f'{n}: {int(bad.sum())} pixels differ with {o["thread-count"]} threads, tiles {o["tile-size"]}; first {tuple(np.argwhere(bad)[0])}: {u[tuple(np.argwhere(bad)[0])]} / {v[tuple(np.argwhere(bad)[0])]}')
            c.counter('files compared')
    c.sig(describe(s))
    c.sample(f'{describe(s)}: {len(ref[0])} rows, {len(ref[1])} images, 3 runs')


if __name__ == '__main__':
    sys.exit(main())
