"""Running the sourcextractor++ program (built from /repo with /verif/shim) on generated files, and reading what it wrote.
FITS reading and writing here is independent of the code under test (numpy only)."""
import math, os, re, shutil, signal, subprocess, sys
import numpy as np

REPO = os.environ.get('REPO_DIR', '/repo')
VERIF = os.environ.get('VERIF_DIR', '/verif')


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- FITS
BITPIX = {8: '>u1', 16: '>i2', 32: '>i4', 64: '>i8', -32: '>f4', -64: '>f8'}


def card(k, v, c=''):
    if isinstance(v, bool):
        s = f"{k:8s}= {'T' if v else 'F':>20s}"
    elif isinstance(v, str):
        s = f"{k:8s}= " + "'" + v.replace("'", "''").ljust(8) + "'"
    elif isinstance(v, float):
        s = f"{k:8s}= {repr(v).upper():>20s}"
    else:
        s = f"{k:8s}= {v:>20d}"
    if c:
        s += ' / ' + c
    return s[:80].ljust(80)


def tan_wcs(w, h, ra=30.0, dec=-20.0, scale=5e-5, rot=0.0, crpix=None, flip=-1):
    c, s = math.cos(rot), math.sin(rot)
    crpix = crpix or ((w + 1) / 2, (h + 1) / 2)
    return dict(CTYPE1='RA---TAN', CTYPE2='DEC--TAN', CRPIX1=float(crpix[0]), CRPIX2=float(crpix[1]), CRVAL1=float(ra), CRVAL2=float(dec),
                CD1_1=flip * scale * c, CD1_2=scale * s, CD2_1=flip * -scale * s, CD2_2=scale * c)


def hdu_bytes(data, keys=None, first=True, bitpix=-32, extra_cards=(), bscale=None, bzero=None):
    h = [card('SIMPLE', True) if first else "XTENSION= 'IMAGE   '".ljust(80), card('BITPIX', bitpix)]
    if data is None:
        h += [card('NAXIS', 0)]
    else:
        h += [card('NAXIS', data.ndim)] + [card(f'NAXIS{i+1}', n) for i, n in enumerate(data.shape[::-1])]
    if first:
        h += [card('EXTEND', True)]
    else:
        h += [card('PCOUNT', 0), card('GCOUNT', 1)]
    if bscale is not None:
        h.append(card('BSCALE', float(bscale)))
    if bzero is not None:
        h.append(card('BZERO', float(bzero)))
    for k, v in (keys or {}).items():
        h.append(card(k, v))
    h += [c[:80].ljust(80) for c in extra_cards]
    h.append('END'.ljust(80))
    b = ''.join(h).encode('latin1')
    b += b' ' * (-len(b) % 2880)
    if data is not None:
        d = np.ascontiguousarray(data).astype(BITPIX[bitpix]).tobytes()
        b += d + b'\0' * (-len(d) % 2880)
    return b


def write_fits(path, hdus, primary_empty=False):
    """hdus: list of (data, keys[, bitpix])"""
    out = b''
    first = True
    if primary_empty:
        out += hdu_bytes(None, first=True, bitpix=8)
        first = False
    for h in hdus:
        out += hdu_bytes(h[0], h[1], first, h[2] if len(h) > 2 else -32)
        first = False
    with open(path, 'wb') as f:
        f.write(out)


def bintable(cols, nrows, name='', keys=None):
    """cols: list of (name, fits format letter I J K E D L, array (nrows,) or (nrows, n))"""
    dt = {'I': '>i2', 'J': '>i4', 'K': '>i8', 'E': '>f4', 'D': '>f8', 'L': 'S1', 'A': None}
    parts, h = [], []
    width = 0
    arrs = []
    for i, (n, f, a) in enumerate(cols):
        a = np.asarray(a)
        if f == 'A':
            a = a.astype('S')
            m = a.dtype.itemsize
            raw = a
        else:
            raw = a.astype(dt[f])
            m = 1 if a.ndim == 1 else a.shape[1]
        b = np.frombuffer(raw.tobytes(), np.uint8).reshape(nrows, -1) if nrows else np.zeros((0, m * (1 if f in 'LA' else np.dtype(dt[f]).itemsize)), np.uint8)
        arrs.append(b)
        width += b.shape[1]
        h += [card(f'TTYPE{i+1}', n), card(f'TFORM{i+1}', f'{m}{f}')]
    hd = ["XTENSION= 'BINTABLE'".ljust(80), card('BITPIX', 8), card('NAXIS', 2), card('NAXIS1', width), card('NAXIS2', nrows), card('PCOUNT', 0),
          card('GCOUNT', 1), card('TFIELDS', len(cols))] + h
    if name:
        hd.append(card('EXTNAME', name))
    for k, v in (keys or {}).items():
        hd.append(card(k, v))
    hd.append('END'.ljust(80))
    b = ''.join(hd).encode()
    b += b' ' * (-len(b) % 2880)
    d = np.concatenate(arrs, axis=1).tobytes() if nrows else b''
    return b + d + b'\0' * (-len(d) % 2880)


def read_fits(path):
    """-> list of (header dict, data or None), images only decoded"""
    raw = open(path, 'rb').read()
    pos, res = 0, []
    while pos < len(raw):
        hdr, cards = {}, []
        while True:
            blk = raw[pos:pos + 2880]
            if len(blk) < 2880:
                if not res:
                    raise HarnessError(f'{path}: truncated header')
                return res
            pos += 2880
            end = False
            for i in range(0, 2880, 80):
                c = blk[i:i + 80].decode('latin1')
                if c.startswith('END '):
                    end = True
                    break
                cards.append(c)
                if c[8:10] == '= ':
                    v = c[10:]
                    if v.lstrip().startswith("'"):
                        m = re.match(r"\s*'((?:[^']|'')*)'", v)
                        val = m.group(1).replace("''", "'").rstrip() if m else v.strip()
                    else:
                        t = v.split('/')[0].strip()
                        if t in ('T', 'F'):
                            val = t == 'T'
                        else:
                            try:
                                val = int(t)
                            except ValueError:
                                try:
                                    val = float(t.replace('D', 'E'))
                                except ValueError:
                                    val = t
                    hdr[c[:8].strip()] = val
            if end:
                break
        n = hdr.get('NAXIS', 0)
        shape = [hdr[f'NAXIS{i+1}'] for i in range(n)][::-1]
        size = abs(hdr['BITPIX']) // 8 * (int(np.prod(shape)) if n else 0) + hdr.get('PCOUNT', 0)
        data = None
        if n and (hdr.get('XTENSION', 'IMAGE') == 'IMAGE'):
            data = np.frombuffer(raw[pos:pos + size], BITPIX[hdr['BITPIX']]).reshape(shape)
            data = data.astype(data.dtype.newbyteorder('='))
            if 'BZERO' in hdr or 'BSCALE' in hdr:
                data = data * hdr.get('BSCALE', 1) + hdr.get('BZERO', 0)
        hdr['_cards'] = cards
        res.append((hdr, data))
        pos += size + (-size % 2880)
    return res


def read_image(path, hdu=None):
    for i, (h, d) in enumerate(read_fits(path)):
        if d is not None and (hdu is None or i == hdu):
            return d
    raise HarnessError(f'{path}: no image')


# ---------------------------------------------------------------- catalogue (text written by shim/Table/TableWriter.h)
class Catalogue:
    def __init__(self):
        self.parts = []   # (hdu, columns, types, units, rows)

    @property
    def columns(self):
        return self.parts[0][1] if self.parts else []

    def rows(self):
        return [dict(zip(p[1], r)) for p in self.parts for r in p[4]]

    def raw(self):
        return [r for p in self.parts for r in p[4]]

    def __len__(self):
        return sum(len(p[4]) for p in self.parts)


def _cell(t, s):
    if s[:1] == '[':
        return np.array([float(x) for x in s[1:-1].split(',')[:-1]])
    if s[:1] == '{':
        body = s[1:-1]
        shape = []
        while True:
            m = re.match(r'(\d+)x', body)
            if not m:
                break
            shape.append(int(m.group(1)))
            body = body[m.end():]
        return np.array([float(x) for x in body.split(',')[:-1]]).reshape(shape)
    if t == 'b':
        return bool(int(s))
    if t in ('i', 'l'):
        return int(s)
    if t in ('f', 'd'):
        return float(s)
    return s


def read_catalogue(path):
    cat = Catalogue()
    if not os.path.exists(path):
        return None
    cur = None
    for line in open(path, encoding='latin1'):
        line = line.rstrip('\n')
        if line.startswith('#HDU '):
            f = line[5:].split('\t')
            cur = [f[0], f[1:], None, None, []]
            cat.parts.append(cur)
        elif line.startswith('#TYPES'):
            f = [x.split('|', 1) for x in line.split('\t')[1:]]
            cur[2] = [x[0] for x in f]
            cur[3] = [x[1] for x in f]
        elif line:
            f = line.split('\t')[:-1]
            if len(f) != len(cur[1]):
                raise HarnessError(f'row of {len(f)} cells for {len(cur[1])} columns')
            cur[4].append([_cell(t, x) for t, x in zip(cur[2], f)])
    return cat


# ---------------------------------------------------------------- running
SAN_EXIT = (87, 88)


class Result:
    pass


def run(args, cwd, prog=None, timeout=60, config=None, env_extra=None, fsize=None, attempts=2):
    """-> Result(rc, out, err, timeout, sanitizer, crashed)"""
    prog = prog or os.environ['VH_PROG']
    env = dict(os.environ)
    env.update(ASAN_OPTIONS='detect_leaks=0:handle_abort=1:abort_on_error=0:exitcode=87:detect_odr_violation=0:max_allocation_size_mb=6000:allocator_may_return_null=0:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=88', PYTHONPATH=f'{REPO}/SEImplementation/python:{VERIF}/shim/python',
               PYTHONDONTWRITEBYTECODE='1', HOME=cwd, LC_ALL='C')
    env.pop('PYTHONHOME', None)
    if env_extra:
        env.update(env_extra)
    cmd = [prog] + [str(a) for a in args]
    r = Result()
    r.cmd = ' '.join(cmd[1:])
    pre = None
    if fsize is not None:
        import resource

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    for attempt in range(attempts):
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True, stdin=subprocess.DEVNULL, preexec_fn=pre)
        try:
            o, e = p.communicate(timeout=timeout)
            r.timeout = False
        except subprocess.TimeoutExpired:
            r.timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            o, e = p.communicate()
        if not r.timeout:
            break
    r.rc = p.returncode
    r.out, r.err = o.decode('latin1'), e.decode('latin1')
    r.sanitizer = r.rc in SAN_EXIT or 'ERROR: AddressSanitizer' in r.err or 'runtime error:' in r.err or 'Assertion \'' in r.err or "Assertion `" in r.err
    r.crashed = r.sanitizer or (r.rc < 0 and not r.timeout) or 'VSHIM-TERMINATE' in r.err
    return r


def crash_key(r):
    t = r.err
    m = re.search(r'runtime error: (.*)', t)
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\()', t)
    repo = []
    for line in t.splitlines():
        mm = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ in )?(.*)$', line)
        if mm and (REPO + '/') in mm.group(1):
            repo.append(re.split(r'[(<]', mm.group(1))[0].strip().split(' ')[-1])
    top = repo[0] if repo else '?'
    if m:
        return 'ubsan:' + re.sub(r'0x[0-9a-f]+|-?\d[\d.e+]*', 'N', m.group(1))[:70].strip() + ':' + top
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', t)
    if m and m.group(1) != 'ABRT':
        return f'asan:{m.group(1)}:{top}'
    m = re.search(r"Assertion [`'](.*?)' failed", t)
    if m:
        return f'assert:{m.group(1)[:70]}'
    if r.rc < 0:
        return f'signal:{signal.Signals(-r.rc).name}:{top}'
    return f'terminate:{r.rc}'


# ---------------------------------------------------------------- scenes
def gauss(shape, x, y, flux, sigma, q=1.0, theta=0.0):
    """Gaussian source image, x, y 0-based"""
    yy, xx = np.mgrid[0:shape[0], 0:shape[1]]
    dx, dy = xx - x, yy - y
    u = dx * math.cos(theta) + dy * math.sin(theta)
    v = -dx * math.sin(theta) + dy * math.cos(theta)
    return flux / (2 * math.pi * sigma * sigma * q) * np.exp(-(u * u + (v / q) ** 2) / (2 * sigma * sigma))


def scene(rng, w, h, n, noise=1.0, sky=0.0, fmin=200, fmax=20000, smin=1.2, smax=3.5, margin=0):
    """-> float32 image and the list of true sources"""
    img = np.full((h, w), float(sky))
    srcs = []
    for _ in range(n):
        x, y = rng.uniform(-1 + margin, w - margin), rng.uniform(-1 + margin, h - margin)
        s = rng.uniform(smin, smax)
        f = math.exp(rng.uniform(math.log(fmin), math.log(fmax)))
        q, t = rng.uniform(0.5, 1), rng.uniform(0, math.pi)
        x0, x1 = max(0, int(x - 8 * s)), min(w, int(x + 8 * s) + 2)
        y0, y1 = max(0, int(y - 8 * s)), min(h, int(y + 8 * s) + 2)
        if x1 > x0 and y1 > y0:
            img[y0:y1, x0:x1] += gauss((y1 - y0, x1 - x0), x - x0, y - y0, f, s, q, t)
        srcs.append((x, y, f, s, q, t))
    if noise:
        g = np.random.default_rng(rng.getrandbits(60))
        img += g.normal(0, noise, img.shape)
    return img.astype(np.float32), srcs
