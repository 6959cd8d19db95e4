"""C26: association with a catalogue, and catalogue-driven measurement"""
import math
import sys
import numpy as np
from e2e_main import section, main
from sepp import *
from e2e import fail_run, clean_exit, opts
from e2e_conf import tan_world
from e2e_meas import circle_area

MODES = ['FIRST', 'NEAREST', 'MEAN', 'MAG_MEAN', 'SUM', 'MAG_SUM', 'MIN', 'MAX']


def world_tan(k, a, d):
    """sky to 0-based pixel, gnomonic; None behind the plane"""
    a0, d0 = math.radians(k['CRVAL1']), math.radians(k['CRVAL2'])
    a, d = math.radians(a), math.radians(d)
    den = math.sin(d0) * math.sin(d) + math.cos(d0) * math.cos(d) * math.cos(a - a0)
    if den <= 1e-6:
        return None
    X = math.degrees(math.cos(d) * math.sin(a - a0) / den)
    Y = math.degrees((math.cos(d0) * math.sin(d) - math.sin(d0) * math.cos(d) * math.cos(a - a0)) / den)
    m = np.array([[k['CD1_1'], k['CD1_2']], [k['CD2_1'], k['CD2_2']]])
    u, v = np.linalg.solve(m, [X, Y])
    return u + k['CRPIX1'] - 1, v + k['CRPIX2'] - 1


def write_table(c, name, cols, names, fits, types=None):
    """cols: list of 1-d lists"""
    n = len(cols[0])
    if fits:
        with open(f'{c.dir}/{name}', 'wb') as f:
            f.write(hdu_bytes(None, {}))
            f.write(bintable([(nm, t, np.asarray(v)) for nm, t, v in zip(names, types, cols)], n))
        return
    with open(f'{c.dir}/{name}', 'w') as f:
        if c.rng.random() < .5:
            f.write('# ' + ' '.join(names) + '\n')
        for i in range(n):
            f.write(' '.join(repr(float(v[i])) for v in cols) + '\n')


def combine(mode, near, x, y, vals):
    """near: list of (catalogue index, d2, weight); -> list of acceptable value rows, or None when undecided"""
    w = np.array([q[2] for q in near])
    V = np.array([vals[q[0]] for q in near], float)
    if mode == 'FIRST':
        return [vals[min(q[0] for q in near)]]
    if mode == 'NEAREST':
        d = min(q[1] for q in near)
        ok = [q for q in near if math.sqrt(q[1]) < math.sqrt(d) + 2e-3]
        return [vals[q[0]] for q in ok]
    if mode in ('MIN', 'MAX'):
        m = (min if mode == 'MIN' else max)(w)
        return [vals[q[0]] for q in near if q[2] == m]
    with np.errstate(all='ignore'):
        if mode == 'MEAN':
            return [(V * w[:, None]).sum(0) / w.sum()] if abs(w.sum()) > 1e-3 * np.abs(w).sum() else None
        if mode == 'SUM':
            return [V.sum(0)]
        if mode == 'MAG_MEAN':
            l = 10 ** (-.4 * w)
            return [(V * l[:, None]).sum(0) / l.sum()]
        return [-2.5 * np.log10((10 ** (-.4 * V)).sum(0))]


def close_rows(got, want, mode, scale):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    tol = 1e-5 * np.abs(want) + 2e-6 * scale + 1e-12
    return bool(np.all((np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(want))))


@section('c26_match', 48, 800)
def c26_match(c):
    """every row carries the combination of the catalogue entries within the radius of its position"""
    rng = c.rng
    n = rng.choice([1, 1, 1, 2, 3])
    hd, srcs = [], []
    for i in range(n):
        w, h = rng.randint(50, 120), rng.randint(50, 120)
        img, src = scene(rng, w, h, rng.randint(4, 14), 1.0, 0.0, fmin=500, fmax=2e4, smax=2.0, margin=3)
        k = tan_wcs(w, h, ra=rng.uniform(0, 360), dec=rng.uniform(-70, 70), rot=rng.uniform(0, 6), flip=rng.choice([-1, 1]))
        hd.append((img, k))
        srcs.append(src)
    write_fits(c.dir + '/det.fits', hd)
    world = rng.random() < .5
    radius = rng.choice([2.0, 0.7, 3.5, 8.0, 20.0, 60.0])
    cat = []          # world or 0-based pixel
    for i in range(n):
        for s in srcs[i]:
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                a, r = rng.uniform(0, 7), abs(rng.gauss(0, radius))
                p = s[0] + r * math.cos(a), s[1] + r * math.sin(a)
                cat.append(tan_world(hd[i][1], *p) if world else p)
    for _ in range(rng.choice([1, 5, 130, 600])):
        i = rng.randrange(n)
        p = rng.uniform(-20, hd[i][0].shape[1] + 20), rng.uniform(-20, hd[i][0].shape[0] + 20)
        cat.append(tan_world(hd[i][1], *p) if world else p)
    for _ in range(rng.choice([0, 0, 3])):
        cat.append(cat[rng.randrange(len(cat))])
    rng.shuffle(cat)
    N = len(cat)
    # columns: coordinates, weight and values, in a random order
    fits = rng.random() < .5
    weights = [rng.choice([1.0, 2.0, round(rng.uniform(.1, 20), 3)]) for _ in range(N)]
    cols, names, types = [], [], []

    def add(nm, v, t):
        cols.append(v)
        names.append(nm)
        types.append(t)
    off = 0 if world else 1
    parts = [('C0', [float(p[0]) + off for p in cat], 'D'), ('C1', [float(p[1]) + off for p in cat], 'D'), ('W', weights, 'D')]
    for j in range(rng.randint(0, 5)):
        t = rng.choice('JKED')
        parts.append((f'v{j}', [rng.randint(-1000, 100000) if t in 'JK' else float(np.float32(rng.gauss(15, 3))) for _ in range(N)], t))
    rng.shuffle(parts)
    for p in parts:
        add(*p)
    where = {nm: i for i, nm in enumerate(names)}
    write_table(c, 'assoc.dat', cols, names, fits, types)
    use_w = rng.random() < .7
    mode = rng.choice(MODES)
    copy = [rng.randrange(len(cols)) for _ in range(rng.randint(0, 4))]
    if mode == 'MAG_SUM':
        copy = [j for j in copy if names[j][0] == 'v' and types[j] in 'ED']
    o = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.fits', 'output-properties': 'SourceIDs,PixelCentroid,HduNumber,AssocMode', 'detection-threshold': 4, 'detection-minimum-area': 4,
         'assoc-catalog': 'assoc.dat', 'assoc-mode': rng.choice([mode, mode.lower()]), 'assoc-radius': radius, 'thread-count': rng.choice([0, 1, 3])}
    if rng.random() < .3:
        # the columns from a file, in its syntax
        custom = list(dict.fromkeys(copy))
        ent = [('ra' if world else 'x', where['C0']), ('dec' if world else 'y', where['C1'])] + ([('weight', where['W'])] if use_w else [])
        ent += [(rng.choice(['a', 'Z', 'm']) + f'{q}', q) for q in custom]
        ent.sort(key=lambda e: e[1])
        used = [e[1] for e in ent]
        lines, nxt = [], 0
        if len(set(used)) == len(used):
            for nm, q in ent:
                up = rng.choice([nm, nm.upper()]) if nm in ('ra', 'dec', 'x', 'y', 'weight') else nm
                if rng.random() < .2:
                    lines += [rng.choice(['# comment', '', '   '])]
                if q == nxt and rng.random() < .7:
                    lines.append(rng.choice(['', ' ']) + up)
                else:
                    lines.append(rng.choice([f'{up}={q + 1}', f' {up} = {q + 1} ']))
                nxt = q + 1
            with open(c.dir + '/cols.txt', 'w') as f:
                f.write('\n'.join(lines) + rng.choice(['', '\n']))
            o['assoc-config'] = 'cols.txt'
            copy = [q for nm, q in sorted((nm, q) for nm, q in ent if nm not in ('ra', 'dec', 'x', 'y', 'weight'))]
            c.counter('columns from a file')
    if 'assoc-config' not in o:
        o['assoc-coord-type'] = rng.choice(['WORLD', 'world'] if world else ['PIXEL', 'pixel'])
        o['assoc-columns'] = ','.join(str(where[q] + 1) for q in (['C0', 'C1', 'W'] if use_w else ['C0', 'C1']))
        if copy:
            o['assoc-copy'] = ','.join(str(j + 1) for j in copy)
    r = run(opts(o), c.dir)
    if not fail_run(c, r, 'assoc'):
        return
    out = read_catalogue(c.dir + '/cat.fits')
    vals = [[float(cols[j][i]) for j in copy] for i in range(N)]
    scale = max([abs(v) for q in vals for v in q] + [0])
    rows = out.rows()
    c.sig(f'{n} {mode} {world} {fits} {radius} {N} {copy} {use_w} {[(r["pixel_centroid_x"], r["pixel_centroid_y"]) for r in rows][:4]}')
    # entries in the pixels of each frame
    pix = []
    for i in range(n):
        pix.append([world_tan(hd[i][1], *p) if world else p for p in cat])
    for q in rows:
        i = int(q['hdu_number'])
        x, y = float(q['pixel_centroid_x']) - 1, float(q['pixel_centroid_y']) - 1
        near, edge = [], False
        for m, p in enumerate(pix[i]):
            if p is None:
                continue
            d2 = (p[0] - x) ** 2 + (p[1] - y) ** 2
            d = math.sqrt(d2)
            edge |= abs(d - radius) < 2e-3
            if d < radius:
                near.append((m, d2, weights[m] if use_w else 1.0))
        if edge:
            c.counter('rows with an entry on the radius')
            continue
        c.counter('rows judged')
        got = q.get('assoc_values')
        if not c.check(bool(int(q['assoc_match'])) == bool(near), 'match', f'match flag {q["assoc_match"]} with {len(near)} entries within {radius} of {x},{y}; {r.cmd}'):
            continue
        if not c.check((got is None) == (not copy), 'column', f'assoc_values {"missing" if copy else "present"} with columns {copy} copied; {r.cmd}'):
            continue
        if not copy:
            continue
        got = np.asarray(got, float).ravel()
        if not c.check(len(got) == len(copy), 'width', f'{len(got)} values for {len(copy)} columns in a row with {len(near)} matches; {r.cmd}'):
            continue
        if near:
            want = combine(mode, near, x, y, vals)
            if want is None:
                continue
            c.counter(f'{mode} of {"one" if len(near) == 1 else "several"}')
            c.check(any(close_rows(got, v, mode, scale) for v in want), f'values-{mode}', f'{mode} of {len(near)} entries is {got} instead of {want[0]}; {r.cmd}')
        else:
            c.check(not np.isfinite(got).any() or not got.any(), 'null', f'a row without match carries {got}; {r.cmd}')
    # the filter leaves the rows it names
    f = rng.choice(['MATCHED', 'UNMATCHED'])
    r2 = run(opts(dict(o, **{'assoc-filter': f, 'output-catalog-filename': 'cat2.fits'})), c.dir)
    if not fail_run(c, r2, 'filter'):
        return
    rows2 = read_catalogue(c.dir + '/cat2.fits').rows() if os.path.exists(c.dir + '/cat2.fits') else []
    key = lambda q: (int(q['hdu_number']), round(float(q['pixel_centroid_x']), 4), round(float(q['pixel_centroid_y']), 4))
    a = sorted(key(q) for q in rows if bool(int(q['assoc_match'])) == (f == 'MATCHED'))
    b = sorted(key(q) for q in rows2)
    c.check(a == b, 'filter', f'{f}: {len(b)} rows, {len(a)} rows of the unfiltered run qualify; {r2.cmd}')


@section('c26_config', 40, 400)
def c26_config(c):
    """association options that mean nothing are refused; assoc-test shows the catalogue and ends"""
    rng = c.rng
    w, h = 60, 60
    img, src = scene(rng, w, h, 5, 1.0, 0.0, fmin=1000, fmax=2e4, smax=2.0, margin=5)
    k = tan_wcs(w, h)
    write_fits(c.dir + '/det.fits', [(img, k)])
    N = rng.randint(1, 30)
    cols = [[rng.uniform(1, 60) for _ in range(N)] for _ in range(3)] + [[rng.randint(0, 9) for _ in range(N)]]
    fits = rng.random() < .5
    write_table(c, 'assoc.dat', cols, ['a', 'b', 'c', 'd'], fits, 'DDEJ')
    o = {'detection-image': 'det.fits', 'output-catalog-filename': 'cat.fits', 'output-properties': 'SourceIDs,AssocMode', 'assoc-catalog': 'assoc.dat', 'detection-threshold': 4}
    bad = rng.choice(['copy-high', 'copy-zero', 'copy-text', 'columns-text', 'columns-one', 'columns-four', 'columns-high', 'columns-zero', 'mode', 'filter', 'coord', 'missing', 'string', 'config-missing', 'config-both', 'config-none',
                      'config-high', 'empty', 'test', 'group-high', 'size-high'])
    c.sig(f'{bad} {N} {fits}')
    conf = None
    if bad == 'copy-high':
        o['assoc-copy'] = '3,5'
    elif bad == 'copy-zero':
        o['assoc-copy'] = rng.choice(['0', '-1', '1,0'])
    elif bad == 'copy-text':
        o['assoc-copy'] = rng.choice(['a', '1,b', '1,,2', '1.5', '1;2'])
    elif bad == 'columns-text':
        o['assoc-columns'] = rng.choice(['x,y', '1,b', '1 2', '1,2,'])
    elif bad == 'columns-one':
        o['assoc-columns'] = '1'
    elif bad == 'columns-four':
        o['assoc-columns'] = '1,2,3,4'
    elif bad == 'columns-high':
        o['assoc-columns'] = rng.choice(['1,5', '9,2', '1,2,7'])
    elif bad == 'columns-zero':
        o['assoc-columns'] = rng.choice(['0,1', '1,0', '-3,1'])
    elif bad == 'mode':
        o['assoc-mode'] = rng.choice(['CLOSEST', 'NEAR', 'MEDIAN'])
    elif bad == 'filter':
        o['assoc-filter'] = rng.choice(['NONE', 'MATCH', 'YES'])
    elif bad == 'coord':
        o['assoc-coord-type'] = rng.choice(['SKY', 'RADEC'])
    elif bad == 'missing':
        o['assoc-catalog'] = rng.choice(['nowhere.dat', '.', 'no/such.fits'])
    elif bad == 'string':
        with open(f'{c.dir}/assoc.dat', 'wb') as f:
            f.write(hdu_bytes(None, {}) + bintable([('a', 'D', np.array([1.0, 2.0])), ('b', 'D', np.array([3.0, 4.0])), ('s', 'A', np.array(['ab', 'cd']))], 2))
        o['assoc-copy'] = '3'
    elif bad == 'config-missing':
        o['assoc-config'] = 'nowhere.txt'
    elif bad == 'config-both':
        conf = 'x=1\ny=2\nra=3\n'
    elif bad == 'config-none':
        conf = rng.choice(['a=1\nb=2\n', 'x=1\ndec=2\n', '', '# x=1\n# y=2\n'])
    elif bad == 'config-high':
        conf = rng.choice(['x=1\ny=9\n', 'x=1\ny=2\nm=8\n', 'x=0\ny=1\n', 'x=1\ny=2\nq=0\n', 'x=1\ny=2\nq=no\n'])
    elif bad == 'empty':
        open(f'{c.dir}/assoc.dat', 'w').close()
    elif bad == 'group-high':
        o['assoc-group-id'] = rng.choice([5, 40])
    elif bad == 'size-high':
        o['assoc-source-sizes'] = rng.choice([5, 40])
    elif bad == 'test':
        o['assoc-test'] = None
        o['assoc-copy'] = '3,4'
    if conf is not None:
        with open(c.dir + '/cols.txt', 'w') as f:
            f.write(conf)
        o['assoc-config'] = 'cols.txt'
    r = run(opts(o) + (['--assoc-test'] if bad == 'test' else []), c.dir)
    c.counter(bad)
    if not clean_exit(c, r, bad):
        return
    if bad == 'test':
        body = [l.split() for l in r.out.splitlines() if l and l[0] in '-0123456789']
        c.check(len(body) == min(N, 10) and all(len(l) == 4 for l in body), 'test', f'assoc-test printed {len(body)} entries of {N}: {r.out[:300]}')
        for i, l in enumerate(body):
            want = [cols[0][i] - 1, cols[1][i] - 1, cols[2][i], cols[3][i]]
            c.check(all(abs(float(u) - v) <= 2e-5 * abs(v) + 1e-5 for u, v in zip(l, want)), 'test', f'assoc-test printed {l} for the entry {want}')
        return
    c.check(r.rc != 0, 'accepted', f'{bad} accepted: {r.cmd} {conf!r}')
    if r.rc != 0:
        c.check(not os.path.exists(c.dir + '/cat.fits') or os.path.getsize(c.dir + '/cat.fits') == 0, 'output', f'{bad}: refused, but a catalogue was written')


@section('c26_driven', 32, 500)
def c26_driven(c):
    """without a detection image every catalogue entry is a source at its position"""
    rng = c.rng
    w, h = rng.randint(50, 120), rng.randint(50, 120)
    img, src = scene(rng, w, h, rng.randint(3, 12), 1.0, 0.0, fmin=500, fmax=2e4, smax=2.0)
    nim = rng.choice([1, 1, 2])
    k0 = tan_wcs(w, h, ra=rng.uniform(0, 360), dec=rng.uniform(-70, 70), rot=rng.uniform(0, 6), flip=rng.choice([-1, 1]))
    lines = ['from sourcextractor.config import *', 'ims = []']
    m = []
    for j in range(nim):
        dx, dy = (0, 0) if not j else (rng.randint(-30, 30), rng.randint(-30, 30))
        kk = dict(k0, CRPIX1=k0['CRPIX1'] + dx, CRPIX2=k0['CRPIX2'] + dy)
        im = img if not j else np.asarray(np.random.default_rng(rng.getrandbits(40)).normal(0, 1, (h, w)), np.float32)
        write_fits(f'{c.dir}/m{j}.fits', [(im, kk)])
        write_fits(f'{c.dir}/w{j}.fits', [(np.ones_like(im), {})])
        lines.append(f"ims.append(MeasurementImage('m{j}.fits', weight_file='w{j}.fits', weight_type='rms', weight_absolute=True, constant_background=0.))")
        m.append((im.astype(float), kk))
    ap = [round(rng.uniform(3, 14), 2) for _ in range(rng.randint(1, 2))]
    lines += ['g = MeasurementGroup(ImageGroup(images=ims))', f'ap = add_aperture_photometry([i for i in g], {ap!r})', "add_output_column('aper', ap)"]
    with open(c.dir + '/m.py', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    N = rng.choice([1, 3, 20, 150])
    cat, px = [], []
    for _ in range(N):
        p = (rng.uniform(-15, w + 15), rng.uniform(-15, h + 15)) if rng.random() < .7 or not src else (src[0][0] + rng.gauss(0, 1), src[0][1] + rng.gauss(0, 1))
        px.append(p)
        cat.append(tan_world(k0, *p))
    for _ in range(rng.choice([0, 0, 2])):
        i = rng.randrange(N)
        cat[i] = ((float(cat[i][0]) + 180) % 360, -float(cat[i][1]))    # behind
        px[i] = None
    val = [float(np.float32(rng.gauss(0, 100))) for _ in range(N)]
    gid = [rng.choice([0, 1, 2, 2, 7, 100]) for _ in range(N)]
    size = [rng.uniform(2, 12) for _ in range(N)]
    parts = [('RA', [float(q[0]) for q in cat], 'D'), ('DEC', [float(q[1]) for q in cat], 'D'), ('V', val, 'E'), ('G', gid, 'J'), ('S', size, 'E')]
    rng.shuffle(parts)
    where = {q[0]: i for i, q in enumerate(parts)}
    write_table(c, 'assoc.dat', [q[1] for q in parts], [q[0] for q in parts], rng.random() < .5, [q[2] for q in parts])
    grouped = rng.random() < .6
    o = {'segmentation-algorithm': 'ASSOC', 'assoc-catalog': 'assoc.dat', 'output-catalog-filename': 'cat.fits', 'output-properties': 'SourceIDs,WorldCentroid,AperturePhotometry,AssocMode,GroupInfo', 'python-config-file': 'm.py',
         'thread-count': rng.choice([0, 1, 4])}
    if rng.random() < .3:
        with open(c.dir + '/cols.txt', 'w') as f:
            f.write(f'RA={where["RA"] + 1}\nDEC={where["DEC"] + 1}\nval={where["V"] + 1}\npixel_size={where["S"] + 1}\n' + (f'group_id={where["G"] + 1}\n' if grouped else ''))
        o['assoc-config'] = 'cols.txt'
    else:
        o.update({'assoc-coord-type': 'WORLD', 'assoc-columns': f'{where["RA"] + 1},{where["DEC"] + 1}', 'assoc-copy': where['V'] + 1})
        if grouped:
            o['assoc-group-id'] = where['G'] + 1
        if rng.random() < .5:
            o['assoc-source-sizes'] = where['S'] + 1
    limit = 0
    if grouped:
        o['grouping-algorithm'] = 'ASSOC'
        if rng.random() < .3:
            limit = rng.choice([1, 2, 5])
            o['grouping-hard-limit'] = limit
    r = run(opts(o), c.dir)
    if not fail_run(c, r, 'driven'):
        return
    rows = read_catalogue(c.dir + '/cat.fits').rows()
    c.sig(f'{N} {nim} {grouped} {limit} {ap} {cat[0]}')
    if not c.check(len(rows) == N, 'rows', f'{len(rows)} rows for {N} entries; {r.cmd}'):
        return
    left = list(range(N))
    groups = {}
    for q in rows:
        a, d, v = float(q['world_centroid_alpha']), float(q['world_centroid_delta']), float(np.asarray(q['assoc_values'], float).ravel()[0])
        hit = [i for i in left if abs((float(cat[i][0]) - a + 180) % 360 - 180) < 1e-9 and abs(float(cat[i][1]) - d) < 1e-9 and abs(val[i] - v) <= 1e-5 * abs(v)]
        if not c.check(bool(hit), 'entry', f'the row {a},{d},{v} is no entry of the catalogue (or one too many); {r.cmd}'):
            continue
        i = hit[0]
        left.remove(i)
        c.counter('entries found')
        c.check(bool(int(q['assoc_match'])), 'match', 'an entry is not marked as matched')
        groups.setdefault(int(q['group_id']), []).append(gid[i] if grouped else 0)
        fl = np.asarray(q['aper_flux'], float).reshape(nim, len(ap))
        fg = np.asarray(q['aper_flags'], int).reshape(nim, len(ap))
        for j, (im, kk) in enumerate(m):
            p = world_tan(kk, *map(float, cat[i]))
            for l, D in enumerate(ap):
                R = float(np.float32(D)) / 2
                if p is None or p[0] + R < -1 or p[1] + R < -1 or p[0] - R > w or p[1] - R > h:
                    c.check(fg[j, l] & 8 or fg[j, l] & 32, 'outside', f'aperture {D} at {p} on image {w}x{h} has flags {fg[j, l]} and flux {fl[j, l]}')
                    continue
                if p[0] - R < 1 or p[1] - R < 1 or p[0] + R > w - 2 or p[1] + R > h - 2:
                    continue
                lo, hi = circle_sum(im, p[0], p[1], R)
                tol = 1e-6 * np.abs(im).max() * 4 * R * R + 1e-3
                c.counter('apertures judged')
                c.counter("apertures with no sample on the rim", hi - lo < 1e-6 * abs(hi))
                c.check(lo - tol <= fl[j, l] <= hi + tol, 'flux', f'aperture {D} at {p} of image {j}: {fl[j, l]} instead of {lo}..{hi}')
    for g, ms in groups.items():
        if not grouped:
            c.check(len(ms) == 1, 'group', f'{len(ms)} sources in one group without grouping')
        else:
            c.check(len(set(ms)) == 1 and (ms[0] != 0 or len(ms) == 1), 'group', f'group of entries with ids {sorted(ms)}')
            c.check(not limit or len(ms) <= limit, 'limit', f'group of {len(ms)} with a limit of {limit}')
    if grouped and not limit:
        seen = [ms[0] for ms in groups.values() if ms[0]]
        c.check(len(seen) == len(set(seen)), 'group', f'entries of one group id in several groups: {sorted(seen)}')


SUB = (np.arange(10) + .5) / 10 - .5


def circle_sum(im, cx, cy, R):
    """least and most flux in the circle (pixel samples at the rim are rounded either way)"""
    y0, y1, x0, x1 = int(cy - R) - 1, int(cy + R) + 3, int(cx - R) - 1, int(cx + R) + 3
    yy, xx = np.mgrid[max(0, y0):min(im.shape[0], y1), max(0, x0):min(im.shape[1], x1)]
    lo, hi = circle_area(xx, yy, cx, cy, R)
    v = im[yy, xx]
    return float(np.minimum(lo * v, hi * v).sum()), float(np.maximum(lo * v, hi * v).sum())


if __name__ == '__main__':
    sys.exit(main())
