"""Whole-program monitors of the measurements (C20) and flags (C17): every row recomputed from the images."""
import glob, math, os, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from e2e import *
from e2e import section, main
import sepp

MEASURES = ['SourceIDs', 'PixelBoundaries', 'NDetectedPixels', 'GroupInfo', 'PeakValue', 'PixelCentroid', 'ShapeParameters', 'IsophotalFlux', 'SNRRatio', 'ErrorEllipse', 'KronRadius', 'AutoPhotometry', 'GrowthCurve',
            'FluxRadius', 'SourceFlags', 'WorldCentroid']
EPS = 2e-5
SUB = (np.arange(10) - 5) / 10.0


def close(a, b, rel, ab=0.0):
    if a is None or b is None:
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= rel * max(abs(a), abs(b)) + ab or a == b


class Frame:
    """what the oracle knows about a run"""


def measure_setup(c, **kw):
    rng = c.rng
    s = detection_setup(c, **kw)
    o = s['o']
    if s['bad'].any():
        o['detection-image-interpolation'] = False
        o.pop('detection-image-interpolation-gap', None)
        s['gap'] = 0
    s['gain'] = rng.choice([0, 1.0, 2.5, 100.0])
    if s['gain'] and rng.random() < .5:
        s['keys']['GAIN'] = s['gain']
    elif s['gain'] or rng.random() < .5:
        o['detection-image-gain'] = s['gain']
        if rng.random() < .3:
            s['keys']['GAIN'] = 7.0
    s['sat'] = 0.0
    if rng.random() < .5:
        s['sat'] = float(round(float(np.quantile(s['img'], rng.choice([.9, .99, .999, 1.0]))), 3))
        if s['sat'] <= 0:
            s['sat'] = 0.0
        elif rng.random() < .5:
            s['keys']['SATURATE'] = s['sat']
        else:
            o['detection-image-saturation'] = repr(s['sat'])
    s['zp'] = rng.choice([0, 25.0, 30.5])
    if s['zp']:
        o['magnitude-zero-point'] = s['zp']
    s['kf'], s['kr'] = 2.5, 3.5
    if rng.random() < .5:
        s['kf'], s['kr'] = rng.choice([1.5, 2.5, 4.0]), rng.choice([1.0, 3.5, 6.0])
        o['auto-kron-factor'], o['auto-kron-min-radius'] = s['kf'], s['kr']
    s['frac'] = [.5]
    if rng.random() < .6:
        s['frac'] = sorted(round(rng.uniform(.05, .99), 3) for _ in range(rng.randint(1, 4)))
        o['flux-fraction'] = ','.join(map(str, s['frac']))
    s['nsamp'] = 64
    if rng.random() < .4:
        s['nsamp'] = rng.choice([8, 64, 100])
        o['flux-growth-samples'] = s['nsamp']
    s['sym'] = True
    if rng.random() < .4:
        s['sym'] = rng.random() < .5
        o['weight-use-symmetry'] = s['sym']
    o['check-image-measurement-background'] = 'mbg.fits'
    o['check-image-measurement-variance'] = 'mvar.fits'
    checks_on(o)
    o['output-catalog-filename'] = 'cat.fits'
    o['output-catalog-format'] = 'FITS'
    o['output-properties'] = ','.join(MEASURES)
    return s


def load_frame(c, s):
    im = load_checks(c, s)
    if im is None:
        return None
    f = Frame()
    f.im = im
    f.img = s['img'].astype(float)
    f.sub = (s['img'] - im['bg']).astype(float)
    f.filt = im['filt'].astype(float)
    f.thr = im['thr'].astype(float)
    snr = im['snr'].astype(float)
    with np.errstate(all='ignore'):
        v1 = (f.filt / snr) ** 2
        v2 = ((f.filt - f.thr) / s['thr']) ** 2
        f.fvar = np.where(np.abs(snr) > .5, v1, v2)
    f.fvar = np.where(np.isfinite(f.fvar), f.fvar, np.inf)
    f.varthr = s['varthr'] if s['varthr'] is not None else F32MAX
    mb, mv = glob.glob(c.dir + '/mbg_*.fits'), glob.glob(c.dir + '/mvar_*.fits')
    if not c.check(len(mb) == 1 and len(mv) == 1, 'measurement-check-images', f'{mb} {mv}'):
        return None
    f.mvar = read_image(mv[0]).astype(float)
    f.mvar = np.where(np.isfinite(f.mvar), f.mvar, np.inf)
    f.msub = (s['img'] - read_image(mb[0])).astype(float)
    f.part = im['part']
    f.grp = im['grp']
    f.w, f.h = s['w'], s['h']
    return f


def subflux(f, val, cx, cy, rad):
    """-> pixels (y, x) around a centre"""


def ellipse_pixels(f, cx, cy, cxx, cyy, cxy, R):
    """pixels of the image with their squared elliptical radius, out to a little over R; whether the ellipse leaves the image"""
    det = cxx * cyy - cxy * cxy / 4
    dx = R * math.sqrt(cyy / det) + 2
    dy = R * math.sqrt(cxx / det) + 2
    x0, x1 = math.floor(cx - dx), math.ceil(cx + dx)
    y0, y1 = math.floor(cy - dy), math.ceil(cy + dy)
    if (x1 - x0) * (y1 - y0) > 4e6:
        return None
    yy, xx = np.mgrid[y0:y1 + 1, x0:x1 + 1]
    ax, ay = xx - cx, yy - cy
    r2 = cxx * ax * ax + cyy * ay * ay + cxy * ax * ay
    inside = (xx >= 0) & (yy >= 0) & (xx < f.w) & (yy < f.h)
    return xx, yy, r2, inside


def val_range(values, sure, maybe):
    base = values[sure].sum()
    m = values[maybe]
    return base + np.minimum(m, 0).sum(), base + np.maximum(m, 0).sum()


def mirror(f, s, cx, cy, xs, ys, box=None):
    """values and variances seen at the given pixels of the measurement image; None when a rounding decides"""
    v, var = f.msub[ys, xs].copy(), f.mvar[ys, xs].copy()
    masked = var > f.varthr
    if not masked.any():
        return v, var, masked
    v[masked] = 0
    var[masked] = 0
    if s['sym']:
        bx, by = 2 * cx + .49999, 2 * cy + .49999
        if min(abs(bx - round(bx)), abs(by - round(by))) < 2e-4:
            return None
        mx, my = np.floor(bx - xs).astype(int), np.floor(by - ys).astype(int)
        x0, y0, x1, y1 = box or (0, 0, f.w - 1, f.h - 1)
        if (np.any(masked & ((np.abs(bx - xs - x0) < 1) | (np.abs(by - ys - y0) < 1)))):
            pass
        ok = masked & (mx >= x0) & (my >= y0) & (mx <= x1) & (my <= y1)
        i = np.nonzero(ok)[0]
        good = f.mvar[my[i], mx[i]] < f.varthr
        i = i[good]
        v[i] = f.msub[my[i], mx[i]]
        var[i] = f.mvar[my[i], mx[i]]
    return v, var, masked


def check_row(c, s, f, r, g):
    """g: the pixels of the source (ys, xs)"""
    ys, xs = g
    n = len(ys)
    sid = r['source_id']

    def ck(name, got, want, rel, ab=0.0):
        return c.check(close(got, want, rel, ab), name, lambda: f'source {sid} ({n} pixels, x {xs.min()}..{xs.max()} y {ys.min()}..{ys.max()}): {name} {got!r}, recomputed {want!r}')
    fv = f.filt[ys, xs]
    ck('n_detected_pixels', float(r['n_detected_pixels']), float(n), 0)
    ck('area', float(r['area']), float(n), 0)
    for k, v in (('min_x', xs.min()), ('min_y', ys.min()), ('max_x', xs.max()), ('max_y', ys.max())):
        ck('pixel_boundaries_' + k, float(r['pixel_boundaries_' + k]), float(v), 0)
    ck('peak_value', r['peak_value'], fv.max(), 1e-6)
    px, py = int(r['peak_value_x']) - 1, int(r['peak_value_y']) - 1
    c.check(0 <= px < f.w and 0 <= py < f.h and f.filt[py, px] == fv.max() and f.part[py, px] == sid, 'peak-position', lambda: f'source {sid}: peak at {(px, py)}')
    tot = fv.sum()
    if not (tot > 1e-3 * np.abs(fv).sum()):
        c.counter('sources without positive intensity')
        return
    cond = np.abs(fv).sum() / tot      # 1 unless values cancel
    cx, cy = (fv * xs).sum() / tot, (fv * ys).sum() / tot
    ext = max(np.ptp(xs), np.ptp(ys)) + 1
    e = 1e-6 * cond * ext + 4e-7 * max(cx, cy)
    ck('pixel_centroid_x', r['pixel_centroid_x'], cx + 1, 0, e + 1e-6)
    ck('pixel_centroid_y', r['pixel_centroid_y'], cy + 1, 0, e + 1e-6)
    cxs, cys = float(np.float32(cx)), float(np.float32(cy))
    dx, dy = xs - cx, ys - cy
    x2, y2, xy = (fv * dx * dx).sum() / tot, (fv * dy * dy).sum() / tot, (fv * dx * dy).sum() / tot
    mt = math.sqrt(max(0, ((x2 - y2) / 2) ** 2 + xy * xy))
    a2, b2 = (x2 + y2) / 2 + mt, (x2 + y2) / 2 - mt
    tol2 = 3e-6 * cond * ext * ext + 1e-6 * max(cx, cy) * ext
    A, B = r['ellipse_a'], r['ellipse_b']
    if a2 > -tol2 and not math.isnan(A):
        ck('ellipse_a', A * A, max(a2, 0), 1e-4, 4 * tol2)
        ck('ellipse_b', B * B, max(b2, 0), 1e-4, 4 * tol2)
        if b2 > 100 * tol2:
            ck('elongation', r['elongation'], A / B, 1e-4)
            ck('ellipticity', r['ellipticity'], 1 - B / A, 1e-4, 1e-4)
        if mt > 100 * tol2:
            d = math.radians(r['ellipse_theta']) - math.atan2(2 * xy, x2 - y2) / 2
            d = (d + math.pi / 2) % math.pi - math.pi / 2
            c.check(abs(d) < 1e-3 + 4 * tol2 / mt, 'ellipse_theta', lambda: f'source {sid}: theta {r["ellipse_theta"]}, moments {x2} {y2} {xy} give {math.degrees(math.atan2(2 * xy, x2 - y2) / 2)}')
    det = x2 * y2 - xy * xy
    singu = det < .00694
    if abs(det - .00694) > 1e-4 + 10 * tol2 * (x2 + y2):
        u2, w2 = (x2 + .0833333, y2 + .0833333) if singu else (x2, y2)
        d = u2 * w2 - xy * xy
        rel = 1e-4 + 10 * tol2 * (u2 + w2) / d if d > 0 else 1
        if d > 0 and rel < .02:
            ck('ellipse_cxx', r['ellipse_cxx'], w2 / d, rel)
            ck('ellipse_cyy', r['ellipse_cyy'], u2 / d, rel)
            ck('ellipse_cxy', r['ellipse_cxy'], -2 * xy / d, rel, rel * math.sqrt(u2 * w2) / d)
    else:
        singu = None
    # isophotal photometry
    iso = f.sub[ys, xs]
    fl = iso.sum()
    ab = 2e-6 * np.abs(iso).sum() + 1e-6 * np.abs(f.img[ys, xs]).sum()
    ck('isophotal_flux', r['isophotal_flux'], fl, 0, ab)
    var = f.fvar[ys, xs]
    vt = var.sum()
    va = vt + (fl / s['gain'] if s['gain'] > 0 else 0)
    vtol = 1e-5 * vt + ab / (s['gain'] or 1e30)
    if va > 10 * vtol:
        ck('isophotal_flux_err', r['isophotal_flux_err'] ** 2, va, 1e-4, vtol)
        ck('snrratio', r['snrratio'], fl / math.sqrt(va), 1e-4, ab / math.sqrt(va))
    mags(c, s, r, 'isophotal', fl, ab, sid, n)
    # error ellipse
    if singu is not None and r['isophotal_flux'] == r['isophotal_flux']:
        ex, ey, exy = ((var * q).sum() / tot ** 2 for q in (dx * dx, dy * dy, dx * dy))
        ev = vt * .08333 / tot ** 2
        edge = abs((ex * ey - exy * exy) - ev * ev) <= 1e-3 * ev * ev + 1e-5 * ex * ey
        if not (singu and edge):
            if singu and ex * ey - exy * exy < ev * ev:
                ex, ey = ex + ev, ey + ev
            rel = 2e-4 * cond * cond + 20 * tol2 / max(x2 + y2, 1e-3) * .1 + 1e-3
            for k, v in (('x2', ex), ('y2', ey), ('xy', exy)):
                ck('error_centroid_' + k, r['error_centroid_' + k], v, rel, rel * (ex + ey))
            t = math.hypot((ex - ey) / 2, exy)
            ck('error_ellipse_a', r['error_ellipse_a'] ** 2, (ex + ey) / 2 + t, rel, rel * (ex + ey))
            if (ex + ey) / 2 - t > 1e-5 * (ex + ey):
                ck('error_ellipse_b', r['error_ellipse_b'] ** 2, (ex + ey) / 2 - t, rel, rel * (ex + ey))
            if t > 1e-2 * (ex + ey):
                d = math.radians(r['error_ellipse_theta']) - math.atan2(2 * exy, ex - ey) / 2
                d = (d + math.pi / 2) % math.pi - math.pi / 2
                c.check(abs(d) < 5e-2 * (ex + ey) / t * rel * 10 + 2e-3, 'error_ellipse_theta', lambda: f'source {sid}: theta {r["error_ellipse_theta"]}, variance-weighted moments {ex} {ey} {exy}')
    # from here on the oracle starts from the program's own centroid and shape, judged above
    cx, cy = r['pixel_centroid_x'] - 1, r['pixel_centroid_y'] - 1
    e3 = (r['ellipse_cxx'], r['ellipse_cyy'], r['ellipse_cxy'])
    if not all(map(math.isfinite, e3)) or e3[0] * e3[1] - e3[2] ** 2 / 4 <= 1e-9:
        c.counter('sources without an ellipse')
        return
    if not (-5 < cx < f.w + 5 and -5 < cy < f.h + 5):
        c.counter('sources centred outside')
        return
    kron(c, s, f, r, ck, cx, cy, e3, g)
    auto(c, s, f, r, ck, cx, cy, e3, g)
    growth(c, s, f, r, ck, cx, cy, g)


def mags(c, s, r, p, fl, ab, sid, n):
    F, E, M, ME = (r[p + k] for k in ('_flux', '_flux_err', '_mag', '_mag_err'))
    if F > 0:
        c.check(close(M, -2.5 * math.log10(F) + s['zp'], 1e-6, 2e-5), p + '_mag', lambda: f'source {sid}: flux {F}, magnitude {M}, zero point {s["zp"]}')
    elif F < 0:
        c.check(math.isnan(M), p + '_mag-negative', lambda: f'source {sid}: flux {F}, magnitude {M}')
    if math.isfinite(F) and math.isfinite(E) and F != 0:
        c.check(close(ME, 1.0857 * E / F, 1e-5), p + '_mag_err', lambda: f'source {sid}: flux {F} err {E}: {ME}')


def kron(c, s, f, r, ck, cx, cy, e3, g):
    q = ellipse_pixels(f, cx, cy, *e3, 6.0)
    if q is None:
        return
    xx, yy, r2, inside = q
    inn = r2 < 36
    if (np.abs(r2 / 36 - 1) < EPS * 20).any():
        c.counter('rows left out: a pixel on the edge of the aperture')
        return
    X, Y, R2 = xx[inn & inside], yy[inn & inside], r2[inn & inside]
    bad = ~(f.fvar[Y, X] < f.varthr)
    nb = (f.thr[Y, X] > 0) & (f.part[Y, X] != r['source_id'])
    v = np.where(bad, 0, f.sub[Y, X])
    v = np.where(nb, 0, v)
    F, RF = v.sum(), (v * np.sqrt(R2)).sum()
    sc = np.abs(v).sum() + 1e-30
    flags = 8 * bool((inn & ~inside).any())
    N = len(X)
    amb = abs(f.fvar[Y, X] / f.varthr - 1).min(initial=1) < 1e-5
    if N and not amb:
        flags |= 1 * (bad.sum() / N > .1 or nb.sum() / N > .1)
        near = abs(bad.sum() / N - .1) < 1e-6 or abs(nb.sum() / N - .1) < 1e-6
        if not near:
            c.check(int(r['kron_flag']) == flags, 'kron_flag', lambda: f'source {r["source_id"]}: kron_flag {r["kron_flag"]}, {N} pixels, {bad.sum()} bad, {nb.sum()} of neighbours, outside {(inn & ~inside).any()}')
    if not amb:
        if F > 1e-4 * sc:
            ck('kron_radius', r['kron_radius'], RF / F, 2e-5 * sc / F + 1e-4, 1e-3 * np.abs(v).max() / F + 1e-4)
        elif F < -1e-4 * sc or not sc > 1e-20:
            ck('kron_radius', r['kron_radius'], 0.0, 0)


def auto(c, s, f, r, ck, cx, cy, e3, g):
    R = max(float(s['kf']) * r['kron_radius'], s['kr'])
    q = ellipse_pixels(f, cx, cy, *e3, R)
    if q is None:
        return
    xx, yy, r2, inside = q
    maybe = (np.abs(r2 / R ** 2 - 1) < 1e-4)
    inn = (r2 < R * R)
    sel = (inn | maybe) & inside
    X, Y, am = xx[sel], yy[sel], maybe[sel]
    if not len(X):
        return
    det = e3[0] * e3[1] - e3[2] ** 2 / 4
    edge = ((inn | maybe) & ~inside).any()
    masked_any = (f.mvar[Y, X] > f.varthr).any()
    if masked_any and (edge or am.any()):
        c.counter('rows left out: masked pixels in an aperture across the border')
        return
    m = mirror(f, s, cx, cy, X, Y)
    if m is None:
        return
    v, var, masked = m
    if masked_any and s['sym']:
        # the mirror pixel must be well inside the cut the program uses; the ellipse is symmetric, so it is, but for rounding at the edge
        mx, my = np.floor(2 * cx + .49999 - X[masked]), np.floor(2 * cy + .49999 - Y[masked])
        ex, ey = R * math.sqrt(e3[1] / det), R * math.sqrt(e3[0] / det)
        if (np.abs(mx - cx) > ex - .01).any() or (np.abs(my - cy) > ey - .01).any():
            return
    lo, hi = val_range(v, ~am, am)
    ab = 3e-6 * np.abs(v).sum() + 1e-6 * np.abs(f.img[Y, X]).sum()
    F = r['auto_flux']
    c.check(lo - ab <= F <= hi + ab, 'auto_flux', lambda: f'source {r["source_id"]}: auto_flux {F}, recomputed {lo}..{hi} within radius {R} of {(cx, cy)} ({len(X)} pixels, {int(masked.sum())} masked)')
    vl, vh = val_range(var, ~am, am)
    gz = F / s['gain'] if s['gain'] > 0 else 0
    E = r['auto_flux_err']
    vtol = 1e-4 * (vh + abs(gz)) + 1e-12
    if vl + gz > 10 * vtol:
        c.check(vl + gz - vtol <= E * E <= vh + gz + vtol, 'auto_flux_err', lambda: f'source {r["source_id"]}: auto_flux_err {E}, variance {vl}..{vh} flux {F} gain {s["gain"]}')
    mags(c, s, r, 'auto', F, ab, r['source_id'], 0)
    # flags: those of the aperture on both frames, saturation and blending
    fl = int(r['auto_flags'])
    want = 0
    dunno = 0
    X, Y = xx[inn & inside], yy[inn & inside]
    N = len(X)
    near = len(xx[maybe])
    if N:
        for m, bit in ((f.mvar[Y, X] > f.varthr, 1), (f.fvar[Y, X] > f.varthr, 1), ((f.thr[Y, X] > 0) & (f.part[Y, X] != r['source_id']), 16)):
            k = m.sum()
            if (k + near) / N > .1 >= (k - near) / N and (near or abs(k / N - .1) < 1e-6):
                dunno |= bit
            if k / N > .1:
                want |= bit
    if (np.abs(f.fvar[Y, X] / f.varthr - 1) < 1e-5).any():
        dunno |= 1
    if ((inn & ~inside)).any():
        want |= 8
    elif (cx - R * math.sqrt(e3[1] / det) < 3 or cy - R * math.sqrt(e3[0] / det) < 3 or cx + R * math.sqrt(e3[1] / det) > f.w - 4 or cy + R * math.sqrt(e3[0] / det) > f.h - 4):
        dunno |= 8       # the box of the aperture reaches the border, no pixel of it does
    want |= int(r['source_flags']) & 6
    c.check((fl & ~dunno) == (want & ~dunno), 'auto_flags', lambda: f'source {r["source_id"]}: auto_flags {fl}, expected {want} (undecided {dunno}); source_flags {r["source_flags"]}, {N} pixels')


def growth(c, s, f, r, ck, cx, cy, g):
    rl = max(6 * r['ellipse_a'], r['kron_radius'])
    n = s['nsamp']
    curve = np.atleast_1d(np.asarray(r['flux_growth'], float)).ravel()
    c.check(len(curve) == n, 'flux_growth-length', lambda: f'{len(curve)} samples, {n} wanted')
    if not rl > 1e-3 or not math.isfinite(rl) or rl > 300:
        c.counter('sources without a growth curve')
        return
    step = float(np.atleast_1d(r['flux_growth_step']).ravel()[0])
    ck('flux_growth_step', step, rl / n, 1e-4)
    rl = step * n
    x0, x1 = max(0, math.floor(cx - rl - 2)), min(f.w - 1, math.ceil(cx + rl + 2))
    y0, y1 = max(0, math.floor(cy - rl - 2)), min(f.h - 1, math.ceil(cy + rl + 2))
    yy, xx = np.mgrid[y0:y1 + 1, x0:x1 + 1]
    d = np.hypot(xx - cx, yy - cy)
    k = d < rl + 1
    X, Y = xx[k], yy[k]
    if not len(X):
        return
    m = mirror(f, s, cx, cy, X, Y)
    if m is None:
        return
    v = m[0]
    fine = rl / 64
    lo, hi = np.zeros(64), np.zeros(64)
    SX, SY = np.meshgrid(SUB, SUB)
    D = np.hypot(X[:, None] - cx + SX.ravel()[None], Y[:, None] - cy + SY.ravel()[None])
    V = np.repeat(v / 100, 100).reshape(D.shape)
    for sign, arrs in ((1, (hi, lo)), (-1, (lo, hi))):
        for eps, arr in ((-1, arrs[0]), (1, arrs[1])):
            # positive pixels reach further in with a smaller distance
            k = V * sign > 0
            b = np.maximum(np.ceil((D[k] * (1 + eps * 1e-5) + eps * 2e-5) / fine), 1).astype(int) - 1
            ok = b < 64
            arr += np.cumsum(np.bincount(b[ok], V[k][ok], 64)[:64])
    ab = 1e-5 * np.abs(v).sum() + 1e-6 * np.abs(f.img[Y, X]).sum()
    lo -= ab
    hi += ab
    r64 = fine * np.arange(1, 65)
    q = step * np.arange(1, n + 1)
    L, H = np.interp(q, r64, lo), np.interp(q, r64, hi)
    # below the first radius the program extrapolates the first two
    if n > 64:
        t = q < r64[0]
        w = (q[t] - r64[0]) / fine
        L[t] = np.minimum(lo[0] + w * (hi[1] - lo[0]), lo[0] + w * (lo[1] - hi[0])) - 1e-3 * np.abs(hi[:2]).max()
        H[t] = np.maximum(hi[0] + w * (hi[1] - lo[0]), hi[0] + w * (lo[1] - hi[0])) + 1e-3 * np.abs(hi[:2]).max()
    bad = (curve < L) | (curve > H) | ~np.isfinite(curve)
    c.check(not bad.any(), 'flux_growth', lambda: f'source {r["source_id"]}: at radius {q[np.argmax(bad)]} {curve[np.argmax(bad)]}, aperture sum {L[np.argmax(bad)]}..{H[np.argmax(bad)]}; {int(bad.sum())} of {n} differ')
    # flux radius: where the (fine) curve first reaches the fraction
    fr = np.atleast_1d(np.asarray(r['flux_radius'], float)).ravel()
    c.check(len(fr) == len(s['frac']), 'flux_radius-length', lambda: f'{fr} for fractions {s["frac"]}')
    tl, th = lo[63], hi[63]
    for F, R in zip(s['frac'], fr):
        if tl <= 0:
            continue
        # first radius that may / must have reached it
        may = next((i for i in range(64) if hi[i] >= F * tl), 63)
        must = next((i for i in range(64) if lo[i] >= F * th), 63)
        low, high = fine * may, fine * (must + 1)
        c.check(low - 1e-4 * rl <= R <= high + 1e-4 * rl, 'flux_radius', lambda: f'source {r["source_id"]}: flux_radius({F}) {R}, the curve reaches {F * tl}..{F * th} between {low} and {high}')
        if may == must and 0 < may:
            y0_, y1_ = (lo[may - 1] + hi[may - 1]) / 2, (lo[may] + hi[may]) / 2
            if y1_ - y0_ > 50 * ((hi - lo)[may - 1:may + 1]).max() + 50 * F * (th - tl):
                e = fine * (may + (F * (tl + th) / 2 - y0_) / (y1_ - y0_))
                c.check(abs(R - e) < .1 * fine, 'flux_radius-interpolation', lambda: f'source {r["source_id"]}: flux_radius({F}) {R}, linear interpolation {e}, step {fine}')
        c.counter('flux radii')


@section('c20_rows', 60, 400)
def c20_rows(c):
    s = measure_setup(c, allow=('weight', 'bg', 'partition', 'clean', 'group', 'threads', 'filter'))
    write_detection(c, s)
    r = run(opts(s['o']), c.dir)
    if not fail_run(c, r):
        return
    cat = read_catalogue(c.dir + '/cat.fits')
    f = load_frame(c, s)
    if f is None:
        return
    rows = rows_of(cat)
    for row in rows:
        g = np.nonzero(f.part == row['source_id'])
        if not c.check(len(g[0]) > 0, 'source-without-pixels', f"source {row['source_id']}"):
            continue
        check_row(c, s, f, row, g)
        c.sig((len(g[0]), int(np.ptp(g[0])), int(np.ptp(g[1])), round(float(row['isophotal_flux']), 1)))
    c.counter('sources recomputed', len(rows))
    c.sample(f'{describe(s)} -> {len(rows)} rows')


def rows_of(cat):
    res = []
    for row in cat.rows():
        row = dict(row)
        for k, v in row.items():
            if isinstance(v, np.ndarray) and v.size == 1:
                row[k] = v.ravel()[0].item()
            elif isinstance(v, (np.floating, np.integer)):
                row[k] = v.item()
        res.append(row)
    return res


@section('c20_shift', 6, 60)
def c20_shift(c):
    """the same content elsewhere in a larger image gives the same measurements, shifted"""
    rng = c.rng
    w, h = rng.randint(30, 90), rng.randint(30, 90)
    noise = 1
    core, src = scene(rng, w, h, rng.randint(1, 6), noise, 0, fmin=300, fmax=2e4, margin=8)
    W, H = w + 60, h + 60
    places = [(rng.randint(15, 45), rng.randint(15, 45)) for _ in range(2)]
    o = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.fits', 'output-catalog-format': 'FITS', 'background-value': 0.0, 'detection-threshold': rng.choice([2, 3]),
         'use-cleaning': rng.random() < .5, 'partition-multithreshold': rng.random() < .5, 'thread-count': rng.choice([0, 4]), 'output-properties': ','.join(MEASURES),
         'detection-image-gain': 3.0}
    if rng.random() < .5:
        o['use-attractors-partition'] = True
    weighted = rng.random() < .5
    g = np.random.default_rng(rng.getrandbits(60))
    var = g.uniform(.6, 1.6, (h, w)).astype(np.float32)
    res = []
    for ox, oy in places:
        img = np.zeros((H, W), np.float32)
        img[oy:oy + h, ox:ox + w] = core
        write_fits(c.dir + '/det.fits', [(img, tan_wcs(W, H, scale=1e-4))])
        wt = np.ones((H, W), np.float32)
        if weighted:
            wt[oy:oy + h, ox:ox + w] = var
        write_fits(c.dir + '/wt.fits', [(wt, {})])
        o.update({'weight-image': 'wt.fits', 'weight-type': 'variance', 'weight-absolute': True})
        # the background of the measurement image is set, too
        with open(c.dir + '/m.py', 'w') as fh:
            fh.write("from sourcextractor.config import *\nimg = load_fits_image('det.fits', weight='wt.fits', weight_type='variance', weight_absolute=True, constant_background=0.0, gain=3.0)\nadd_measurement_image(img)\n" if False else
                     "from sourcextractor.config import *\nims = load_fits_images(['det.fits'], weights=['wt.fits'], weight_type='variance', weight_absolute=True, constant_background=0.0, gain=3.0)\n"
                     "g = MeasurementGroup(ims)\nap = []\nfor i in g:\n    ap.extend(add_aperture_photometry(i, [3, 7.5]))\nadd_output_column('aper', ap)\n")
        o['python-config-file'] = 'm.py'
        o['output-properties'] = ','.join(MEASURES + ['AperturePhotometry'])
        r = run(opts(o), c.dir)
        if not fail_run(c, r):
            return
        res.append(sorted(rows_of(read_catalogue(c.dir + '/cat.fits')), key=lambda q: (q['peak_value_y'], q['peak_value_x'])))
    a, b = res
    (ax, ay), (bx, by) = places
    if not c.check(len(a) == len(b), 'shift-rows', f'{len(a)} and {len(b)} sources'):
        return
    for p, q in zip(a, b):
        for k in p:
            if k in ('source_id', 'group_id', 'detection_id', 'world_centroid_alpha', 'world_centroid_delta', 'ellipse_theta', 'error_ellipse_theta'):
                continue
            if k.startswith(('auto_', 'aper_', 'kron_', 'flux_')) and any(int(np.max(x[n])) & 40 for x in (p, q) for n in ('auto_flags', 'kron_flag', 'aper_flags')):
                continue      # the aperture reaches the border
            if k in ('elongation', 'ellipse_cxx', 'ellipse_cyy', 'ellipse_cxy') and p['ellipse_b'] < .02 * p['ellipse_a']:
                continue
            d = (bx - ax if k.endswith('_x') else by - ay if k.endswith('_y') else 0) if ('pixel_' in k or 'peak_value_' in k) else 0
            u, v = np.asarray(p[k], float) + d, np.asarray(q[k], float)
            rel, ab = (1e-3, 1e-3) if 'flux_r' in k or 'kron' in k else (2e-4, 1e-3)
            if 'aper' in k or 'auto_f' in k or 'growth' in k:
                ab = 2e-3 * np.abs(u).max(initial=1) + 1       # a sample of a pixel falls in or out by rounding
            c.check(bool(np.all((np.abs(u - v) <= rel * np.abs(u) + ab) | (np.isnan(u) & np.isnan(v)) | (u == v))), 'shift-' + k, lambda: f'{k}: {u} at {places[0]}, {v} at {places[1]} (shift taken out)')
    c.counter('sources compared', len(a))
    c.sig((places, w, h, len(a)))
    c.sample(f'{len(a)} sources at {places}')


def py_setup(c, judge):
    """detection image and up to three measurement images, each another window on the same sky"""
    rng = c.rng
    s = detection_setup(c, allow=('weight', 'partition', 'clean', 'threads', 'filter'), size=(50, 160))
    o = s['o']
    if s['bad'].any():
        o['detection-image-interpolation'] = False
        o.pop('detection-image-interpolation-gap', None)
        s['gap'] = 0
    W, H = s['w'], s['h']
    base = s['img'] - np.float32(s['sky'])
    g = s['gen']
    s['zp'] = rng.choice([0, 25.0])
    if s['zp']:
        o['magnitude-zero-point'] = s['zp']
    s['sym'] = rng.random() < .7
    o['weight-use-symmetry'] = s['sym']
    s['kf'], s['kr'] = 2.5, 3.5
    lines = ['from sourcextractor.config import *', 'ims = []']
    s['m'] = []
    s['apers'] = sorted({round(rng.uniform(1.5, 30), 2) for _ in range(rng.randint(1, 3))})
    if s['var'] is None:
        # the detection variance comes from the background analysis otherwise
        pass
    for k in range(rng.randint(1, 3)):
        m = Frame()
        m.ox, m.oy = (0, 0) if rng.random() < .3 else (rng.randint(-20, W // 3), rng.randint(-20, H // 3))
        m.w, m.h = rng.randint(max(W // 2, 4), W + 20), rng.randint(max(H // 2, 4), H + 20)
        yy, xx = np.mgrid[0:m.h, 0:m.w]
        X, Y = xx + m.ox, yy + m.oy
        ok = (X >= 0) & (Y >= 0) & (X < W) & (Y < H)
        img = g.normal(0, .5, (m.h, m.w))
        img[ok] += base[Y[ok], X[ok]]
        m.const = rng.choice([0.0, 0.0, 30.0])
        img = (img + m.const).astype(np.float32)
        keys = dict(s['keys'])
        keys['CRPIX1'], keys['CRPIX2'] = keys['CRPIX1'] - m.ox, keys['CRPIX2'] - m.oy
        m.fs = rng.choice([1.0, 1.0, 2.0, .25])
        args = dict(constant_background=m.const * m.fs)      # of the scaled image
        if m.fs != 1:
            if rng.random() < .5:
                keys['FLXSCALE'] = m.fs
            else:
                args['flux_scale'] = m.fs
        gain = rng.choice([0, 0, 2.0, 50.0])
        if gain:
            if rng.random() < .5:
                keys['GAIN'] = gain
            else:
                args['gain'] = gain
        m.gain = gain / m.fs
        sat = rng.choice([0, float(np.quantile(img, .99)), float(np.quantile(img, .999))])
        sat = round(sat, 2) if sat > 0 else 0
        if sat:
            if rng.random() < .5:
                keys['SATURATE'] = sat
            else:
                args['saturation'] = sat
        m.sat = sat
        m.orig = img.astype(float)
        rms = g.uniform(.5, 1.5, (m.h, m.w)).astype(np.float32)
        badm = g.uniform(0, 1, (m.h, m.w)) < rng.choice([0, 0, .01, .1])
        rms[badm] = 1e4
        wt = rng.choice(['rms', 'variance', 'weight'])
        wm = {'rms': rms, 'variance': rms.astype(float) ** 2, 'weight': 1 / rms.astype(float) ** 2}[wt].astype(np.float32)
        thr = {'rms': 100.0, 'variance': 1e4, 'weight': 1e-4}[wt]
        args.update(weight_type=wt, weight_absolute=True)
        m.varthr = F32MAX
        if rng.random() < .7:
            args['weight_threshold'] = thr
            m.varthr = 1e4 * m.fs ** 2
        write_fits(f'{c.dir}/m{k}.fits', [(img, keys)])
        write_fits(f'{c.dir}/mw{k}.fits', [(wm, {})])
        m.mvar = np.where(badm, 1e8, rms.astype(float) ** 2) * m.fs ** 2
        m.msub = (img.astype(float) - m.const) * m.fs
        lines.append(f"ims.append(MeasurementImage('m{k}.fits', weight_file='mw{k}.fits', {', '.join(f'{a}={b!r}' for a, b in args.items())}))")
        s['m'].append(m)
    lines += ['g = MeasurementGroup(ImageGroup(images=ims))', f"ap = add_aperture_photometry([i for i in g], {s['apers']!r})", "add_output_column('aper', ap)"]
    with open(c.dir + '/m.py', 'w') as fh:
        fh.write('\n'.join(lines) + '\n')
    s['py'] = lines
    o['python-config-file'] = 'm.py'
    checks_on(o)
    o['output-catalog-filename'] = 'cat.fits'
    o['output-catalog-format'] = 'FITS'
    o['output-properties'] = ','.join([p for p in MEASURES if p not in ('GrowthCurve', 'FluxRadius')] + ['AperturePhotometry'])
    s['judge'] = judge
    return s


def circle_area(xx, yy, cx, cy, R):
    """10x10 samples of each pixel inside the circle: least and most (rounding)"""
    SX, SY = np.meshgrid(SUB, SUB)
    D = np.hypot(xx.ravel()[:, None] - cx + SX.ravel()[None], yy.ravel()[:, None] - cy + SY.ravel()[None])
    lo, hi = (D < R * (1 - 1e-5) - 3e-5).mean(1), (D < R * (1 + 1e-5) + 3e-5).mean(1)
    return lo.reshape(xx.shape), hi.reshape(xx.shape)


def det_flags(s, f, sid, area, inside, xx, yy):
    """flags of an aperture on the detection frame: bits set, bits undecided"""
    lo, hi = area
    X, Y = xx[inside], yy[inside]
    lo, hi = lo[inside], hi[inside]
    tot = (lo.sum(), hi.sum())
    want = dunno = 0
    for m, bit in ((f.fvar[Y, X] > f.varthr, 1), ((f.thr[Y, X] > 0) & (f.part[Y, X] != sid), 16)):
        a, b = (m & (lo > 0)).sum(), (m & (hi > 0)).sum()
        if tot[1] <= 0:
            continue
        if a > .1 * tot[1] * (1 + 1e-5):
            want |= bit
        elif b > .1 * tot[0] * (1 - 1e-5):
            dunno |= bit
    if len(X) and (np.abs(f.fvar[Y, X] / f.varthr - 1) < 1e-5).any():
        dunno |= 1
    return want, dunno


def check_apertures(c, s, f, r):
    cx, cy = r['pixel_centroid_x'] - 1, r['pixel_centroid_y'] - 1
    sid = r['source_id']
    fl, er, fg = (np.asarray(r['aper_' + k], float).reshape(len(s['m']), len(s['apers'])) for k in ('flux', 'flux_err', 'flags'))
    mg, me = (np.asarray(r['aper_' + k], float).reshape(len(s['m']), len(s['apers'])) for k in ('mag', 'mag_err'))
    for j, d in enumerate(s['apers']):
        R = float(np.float32(d)) / 2
        # on the detection frame
        yy, xx = np.mgrid[math.floor(cy - R) - 1:math.ceil(cy + R) + 2, math.floor(cx - R) - 1:math.ceil(cx + R) + 2]
        lo, hi = circle_area(xx, yy, cx, cy, R)
        inside = (xx >= 0) & (yy >= 0) & (xx < s['w']) & (yy < s['h'])
        dw, dd = det_flags(s, f, sid, (lo, hi), inside, xx, yy)
        if (~inside & (lo > 0)).any():
            dw |= 8
        elif min(cx, cy) - R < 2 or cx + R > s['w'] - 3 or cy + R > s['h'] - 3:
            dd |= 8
        for i, m in enumerate(s['m']):
            mx, my = cx - m.ox, cy - m.oy
            X, Y = xx - m.ox, yy - m.oy
            ins = (X >= 0) & (Y >= 0) & (X < m.w) & (Y < m.h)
            want, dunno = dw | (int(r['source_flags']) & 2), dd
            dunno |= 4           # saturation is judged per image below
            F, E = fl[i, j], er[i, j]
            if mx + R < -2 or my + R < -2 or mx - R > m.w + 1 or my - R > m.h + 1:
                want |= 32
                if s['judge'] == 'C20':
                    c.check(F == 0, 'aperture-outside', lambda: f'source {sid}: flux {F} in an aperture wholly outside measurement image {i}')
            elif not (lo[ins] > 0).any():
                dunno |= 32 | 8 | 1
            if s['judge'] == 'C20' and ins.any():
                sel = ins & (hi > 0)
                xs, ys, a, b = X[sel], Y[sel], lo[sel], hi[sel]
                q = mirror(m, s, mx, my, xs, ys) if len(xs) else None
                edge = (~ins & (hi > 0)).any()
                if q is not None and not (q[2].any() and (edge or min(mx, my) - R < 2 or mx + R > m.w - 3 or my + R > m.h - 3 or not (np.hypot(xs - mx, ys - my)[q[2]].max() < R - 1.6 or not s['sym']))):
                    v, var, masked = q
                    p1, p2 = v * a, v * b
                    L, U = np.minimum(p1, p2).sum(), np.maximum(p1, p2).sum()
                    ab = 4e-6 * np.abs(p2).sum() + 1e-6 * m.fs * np.abs(m.orig[ys, xs]).sum()
                    c.check(L - ab <= F <= U + ab, 'aper_flux', lambda: f'source {sid} image {i} diameter {d}: flux {F}, recomputed {L}..{U} around {(mx, my)} ({int(masked.sum())} masked, flux scale {m.fs}, background {m.const})')
                    gz = F / m.gain if m.gain > 0 else 0
                    VL, VU = (var * a).sum() + gz, (var * b).sum() + gz
                    t = 1e-4 * ((var * b).sum() + abs(gz)) + 1e-12
                    if VL > 10 * t:
                        c.check(VL - t <= E * E <= VU + t, 'aper_flux_err', lambda: f'source {sid} image {i} diameter {d}: flux_err {E}, variance {VL}..{VU}, gain {m.gain}')
                    c.counter('aperture sums')
                mags(c, s, dict(aper_flux=F, aper_flux_err=E, aper_mag=mg[i, j], aper_mag_err=me[i, j]), 'aper', F, 0, sid, 0)
            if s['judge'] == 'C17':
                if not want & 32:
                    if (~ins & (lo > 0)).any():
                        want |= 8
                    elif min(mx, my) - R < 2 or mx + R > m.w - 3 or my + R > m.h - 3:
                        dunno |= 8
                    sel = ins & (hi > 0)
                    bad = m.mvar > m.varthr
                    n1, n2 = (bad[Y[sel], X[sel]] & (lo[sel] > 0)).sum(), bad[Y[sel], X[sel]].sum()
                    if n1 > .1 * hi[sel].sum() * (1 + 1e-5):
                        want |= 1
                    elif n2 > .1 * lo[sel].sum() * (1 - 1e-5):
                        dunno |= 1
                got = int(fg[i, j])
                c.check((got & ~dunno) == (want & ~dunno), 'aper_flags', lambda: f'source {sid} image {i} diameter {d} at {(mx, my)} of {m.w}x{m.h}: flags {got}, expected {want} (undecided {dunno})')
                satm, satn = saturation(m.orig * m.fs, m.sat * m.fs, r, m.ox, m.oy)
                if satm or satn:
                    c.check(bool(got & 4) == satm, 'aper_flags-saturated', lambda: f'source {sid} image {i}: flags {got}, saturated pixels in its box {satm}')
                c.counter('aperture flags')


def saturation(img, level, r, ox, oy):
    """(certainly saturated, certainly not)"""
    if level <= 0:
        return False, True
    h, w = img.shape
    x0, y0, x1, y1 = (int(r['pixel_boundaries_' + k]) - o for k, o in (('min_x', ox), ('min_y', oy), ('max_x', ox), ('max_y', oy)))
    big = img[max(0, y0 - 2):max(0, y1 + 4), max(0, x0 - 2):max(0, x1 + 4)]
    small = img[max(0, y0):max(0, y1 + 1), max(0, x0):max(0, x1 + 1)]
    t = 1e-6 * level
    return bool((small >= level + t).any()), not (big >= level - t).any()


@section('c20_apertures', 24, 240)
def c20_apertures(c):
    run_py(c, 'C20')


@section('c17_apertures', 24, 240)
def c17_apertures(c):
    run_py(c, 'C17')


def run_py(c, judge):
    s = py_setup(c, judge)
    write_detection(c, s)
    r = run(opts(s['o']), c.dir)
    if not fail_run(c, r):
        return
    cat = read_catalogue(c.dir + '/cat.fits')
    im = load_checks(c, s)
    if im is None:
        return
    f = layers(s, im)
    rows = rows_of(cat)
    for row in rows:
        check_apertures(c, s, f, row)
        if judge == 'C17':
            check_source_flags(c, s, row, f, [(m.orig * m.fs, m.sat * m.fs, m.ox, m.oy) for m in s['m']], rows)
        c.sig((row['peak_value'], s['apers'], len(s['m'])))
    c.counter('rows', len(rows))
    c.sample(f"{describe(s)} {len(s['m'])} measurement images {s['apers']} -> {len(rows)} rows")


def check_source_flags(c, s, r, f, images, rows):
    """images: (original pixels, saturation, ox, oy)"""
    fl, sid = int(r['source_flags']), r['source_id']
    c.check(fl & ~(2 | 4 | 8 | 4096) == 0, 'source_flags-other', lambda: f'source {sid}: source_flags {fl}')
    sat = [saturation(a, b, r, ox, oy) for a, b, ox, oy in images]
    if any(x for x, _ in sat):
        c.check(bool(fl & 4), 'saturated-missing', lambda: f'source {sid}: saturated pixels among its own, source_flags {fl}')
    elif all(y for _, y in sat):
        c.check(not fl & 4, 'saturated-spurious', lambda: f'source {sid}: no saturated pixel near it, source_flags {fl}')
    must = may = False
    for a, b, ox, oy in images:
        h, w = a.shape
        x0, y0, x1, y1 = (int(r['pixel_boundaries_' + k]) - o for k, o in (('min_x', ox), ('min_y', oy), ('max_x', ox), ('max_y', oy)))
        if x1 < -3 or y1 < -3 or x0 > w + 1 or y0 > h + 1:
            continue
        overlaps = x1 >= 0 and y1 >= 0 and x0 < w and y0 < h
        if overlaps and (x0 <= 0 or y0 <= 0 or x1 >= w - 1 or y1 >= h - 1):
            must = True
        if x0 <= 1 or y0 <= 1 or x1 >= w - 4 or y1 >= h - 4:
            may = True
    if must:
        c.check(bool(fl & 8), 'boundary-missing', lambda: f'source {sid} touches the border, source_flags {fl}')
    if not may:
        c.check(not fl & 8, 'boundary-spurious', lambda: f"source {sid} x {r['pixel_boundaries_min_x']}..{r['pixel_boundaries_max_x']} is not near the border, source_flags {fl}")
    sib = [q for q in rows if q['detection_id'] == r['detection_id']]
    if len(sib) > 1:
        c.check(bool(fl & 2), 'blended-missing', lambda: f'source {sid} shares detection {r["detection_id"]} with {len(sib) - 1} others, source_flags {fl}')
    elif not s['clean'] and (f.part == sid).sum() == (f.seg == r['detection_id']).sum():
        c.check(not fl & 2, 'blended-spurious', lambda: f'source {sid} is the whole of detection {r["detection_id"]}, source_flags {fl}')
    c.counter('source flags')


def layers(s, im):
    f = Frame()
    f.filt, f.thr, f.part, f.seg = im['filt'].astype(float), im['thr'].astype(float), im['part'], im['seg']
    with np.errstate(all='ignore'):
        snr = im['snr'].astype(float)
        f.fvar = np.where(np.abs(snr) > .5, (f.filt / snr) ** 2, ((f.filt - f.thr) / s['thr']) ** 2)
    f.fvar = np.where(np.isfinite(f.fvar), f.fvar, np.inf)
    f.varthr = s['varthr'] if s['varthr'] is not None else F32MAX
    f.w, f.h = s['w'], s['h']
    return f


@section('c17_rows', 30, 300)
def c17_rows(c):
    """source flags and external flags"""
    rng = c.rng
    s = measure_setup(c, allow=('weight', 'partition', 'clean', 'threads', 'filter', 'bg'))
    o = s['o']
    flags = {}
    g = s['gen']
    for k in range(rng.randint(1, 4)):
        name = rng.choice(['1', '2', 'x', 'bad', 'long'])
        if name in flags:
            continue
        kind = rng.choice(['or', 'and', 'min', 'max', 'most', 'OR', 'Most', None])
        bp = rng.choice([8, 16, 32, 64])
        lim = {8: 255, 16: 2 ** 15 - 1, 32: 2 ** 31 - 1, 64: 2 ** 62}[bp]
        m = rng.random()
        if m < .3:
            a = g.integers(0, 4, (s['h'], s['w']))
        elif m < .6:
            a = g.integers(0, lim, (s['h'], s['w']), dtype=np.int64)
        else:
            a = np.where(g.uniform(0, 1, (s['h'], s['w'])) < .03, 1 << rng.randint(0, 6), 0)
        if bp != 8 and rng.random() < .3 and kind not in ('max', 'and'):
            a = a - (a % 3 == 1) * (a + 5)
        a = a.astype({8: np.uint8, 16: np.int16, 32: np.int32, 64: np.int64}[bp])
        write_fits(f'{c.dir}/f{name}.fits', [(a, {}, bp)], primary_empty=rng.random() < .3)
        o[f'flag-image-{name}'] = f'f{name}.fits'
        if kind:
            o[f'flag-type-{name}'] = kind
        flags[name] = ((kind or 'or').lower(), a.astype(np.int64))
    o['output-properties'] = ','.join(MEASURES + ['ExternalFlags'])
    write_detection(c, s)
    r = run(opts(o), c.dir)
    if not fail_run(c, r):
        return
    rows = rows_of(read_catalogue(c.dir + '/cat.fits'))
    im = load_checks(c, s)
    if im is None:
        return
    f = layers(s, im)
    orig = s['img'].astype(float)
    for row in rows:
        check_source_flags(c, s, row, f, [(orig, s['sat'], 0, 0)], rows)
        px = f.part == row['source_id']
        for name, (kind, a) in flags.items():
            v = a[px]
            if kind == 'or':
                e, n = np.bitwise_or.reduce(v), int((v != 0).sum())
            elif kind == 'and':
                e, n = np.bitwise_and.reduce(v), len(v)
            elif kind == 'min':
                e, n = v.min(), int((v == v.min()).sum())
            elif kind == 'max':
                e, n = v.max(), int((v == v.max()).sum())
            else:
                u, k = np.unique(v, return_counts=True)
                e, n = None, int(k.max())
            cf, cn = f'isophotal_image_flags_{name}', f'isophotal_image_flags_pixel_count_{name}'
            if len(flags) == 1 and cf not in row:
                cf, cn = cf[:-len(name) - 1], cn[:-len(name) - 1]
            if not c.check(cf in row and cn in row, 'external-flag-column', lambda: f'{cf} not in {list(row)}'):
                continue
            gf, gn = int(row[cf]), int(row[cn])
            if e is None:
                c.check(gf in u[k == n], 'external-flag-most', lambda: f'{name}: {gf}, most frequent {u[k == n][:5]} ({n} times)')
            else:
                c.check(gf == int(e), 'external-flag-' + kind, lambda: f'{name} ({kind}) of source {row["source_id"]}: {gf}, its {len(v)} pixels give {int(e)}')
            c.check(gn == n, 'external-flag-count-' + kind, lambda: f'{name} ({kind}) of source {row["source_id"]}: count {gn}, {n} of its {len(v)} pixels')
            c.counter('external flags')
        # the flags of the automatic aperture include those of the source
        af = int(row['auto_flags'])
        c.check((af & 6) == (int(row['source_flags']) & 6), 'auto_flags-union', lambda: f'auto_flags {af}, source_flags {row["source_flags"]}')
        e3 = (row['ellipse_cxx'], row['ellipse_cyy'], row['ellipse_cxy'])
        c.sig((row['peak_value'], row['source_flags'], af))
    c.counter('rows', len(rows))
    c.sample(f'{describe(s)} flags {[(k, v[0]) for k, v in flags.items()]} -> {len(rows)} rows')


if __name__ == '__main__':
    sys.exit(main())
