"""Builds monitor harnesses from /repo's current working tree (content-hash object cache, include-closure of sources)."""
import glob, hashlib, json, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
MODULES = ['SEUtils', 'SEFramework', 'ModelFitting', 'SEImplementation', 'SEMain']
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
# cannot be built here: their libraries are missing (onnxruntime, levmar)
EXCLUDE = re.compile(r'Onnx|LevmarEngine|MLSegmentation')
SAN = {
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr'],
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'plain': ['-O1', '-g1'],
}
BASE = ['-std=c++17', '-w', '-DVERIF_MONITOR', '-D_GLIBCXX_ASSERTIONS', '-ftrapping-math']
INC = [f'-I{VERIF}/shim', f'-I{VERIF}/harness'] + [f'-I{REPO}/{m}' for m in MODULES] + ['-I/usr/include/wcslib']
LIBS = ['-lboost_program_options', '-lboost_filesystem', '-lboost_thread', '-lboost_regex', '-lboost_system', '-lCCfits',
        '-lcfitsio', '-lwcs', '-lfftw3f_threads', '-lfftw3f', '-lfftw3_threads', '-lfftw3', '-lgsl', '-lgslcblas',
        '-lyaml-cpp', '-lreadline', '-lncursesw', '-ltinfo', '-lpthread', '-ldl']
PYLIBS = ['-lboost_python312', '-lpython3.12']
INCLUDE_RE = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', re.M)


class BuildError(Exception):
    pass


_text = {}
_lock = threading.Lock()


def _includes(path):
    with _lock:
        if path in _text:
            return _text[path]
    data = open(path, 'rb').read()
    res = (hashlib.sha256(data).hexdigest(), [m.decode('utf8', 'replace') for m in INCLUDE_RE.findall(data)])
    with _lock:
        _text[path] = res
    return res


def _roots():
    return [f'{VERIF}/shim', f'{VERIF}/harness'] + [f'{REPO}/{m}' for m in MODULES]


_resolved = {}


def _resolve(inc, frm):
    key = (inc, os.path.dirname(frm))
    if key in _resolved:
        return _resolved[key]
    res = None
    for d in [os.path.dirname(frm)] + _roots():
        p = os.path.normpath(os.path.join(d, inc))
        if os.path.isfile(p):
            res = p
            break
    _resolved[key] = res
    return res


def header_closure(path):
    seen, stack = set(), [path]
    while stack:
        p = stack.pop()
        if p in seen:
            continue
        seen.add(p)
        for inc in _includes(p)[1]:
            q = _resolve(inc, p)
            if q and q not in seen:
                stack.append(q)
    return seen


def lib_source_for(header):
    """/repo/M/M/A/B.h -> /repo/M/src/lib/A/B.cpp"""
    for m in MODULES:
        pre = f'{REPO}/{m}/{m}/'
        if header.startswith(pre) and header.endswith('.h'):
            p = f'{REPO}/{m}/src/lib/{header[len(pre):-2]}.cpp'
            if os.path.isfile(p) and not EXCLUDE.search(p):
                return p
    return None


def source_closure(starts, stop=None):
    """Library sources reachable from `starts` by following includes (header -> its .cpp)."""
    out, seenh, stack = [], set(), list(starts)
    seen = set(stack)
    while stack:
        s = stack.pop()
        for h in header_closure(s):
            if h in seenh:
                continue
            seenh.add(h)
            c = lib_source_for(h)
            if c and c not in seen and not (stop and stop.search(c)):
                seen.add(c)
                out.append(c)
                stack.append(c)
    return sorted(out)


def all_lib_sources():
    res = []
    for m in MODULES:
        res += glob.glob(f'{REPO}/{m}/src/lib/**/*.cpp', recursive=True)
    return sorted(s for s in res if not EXCLUDE.search(s))


def _key(flags, path, extra=''):
    h = hashlib.sha256()
    h.update(('\0'.join(flags) + extra).encode())
    deps = header_closure(path) | header_closure(f'{VERIF}/shim/vshim_pch.h')
    for d in sorted(deps):
        h.update(d.encode() + b'\0' + _includes(d)[0].encode())
    return h.hexdigest()[:32]


def run(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def _flags(san, extra=()):
    return BASE + SAN[san] + INC + list(extra)


def _pch(san, extra=()):
    """Precompiled std/boost headers for this configuration."""
    fl = _flags(san, extra)
    src = f'{VERIF}/shim/vshim_pch.h'
    d = os.path.join(CACHE, 'pch-' + _key(fl, src))
    hdr = os.path.join(d, 'vshim_pch.h')
    gch = hdr + '.gch'
    if not os.path.exists(gch):
        os.makedirs(d, exist_ok=True)
        with open(hdr, 'wb') as f:
            f.write(open(src, 'rb').read())
        tmp = gch + f'.{os.getpid()}'
        rc, out = run(['g++'] + fl + ['-x', 'c++-header', hdr, '-o', tmp])
        if rc:
            raise BuildError('pch: ' + out[-3000:])
        os.replace(tmp, gch)
    return hdr


def compile_all(srcs, san, extra=()):
    fl = _flags(san, extra)
    pch = _pch(san, extra)
    os.makedirs(f'{CACHE}/obj', exist_ok=True)
    objs, todo = {}, []
    for s in srcs:
        o = f'{CACHE}/obj/{_key(fl, s)}.o'
        objs[s] = o
        if not os.path.exists(o):
            todo.append(s)
    # slowest first
    todo.sort(key=lambda s: -os.path.getsize(s) - (100000 if '/verif/' in s or s.startswith(VERIF) else 0))

    def one(s):
        tmp = objs[s] + f'.{os.getpid()}.{threading.get_ident()}'
        rc, out = run(['g++'] + fl + ['-include', pch, '-c', s, '-o', tmp])
        if rc:
            return s, out
        os.replace(tmp, objs[s])
        return s, None
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        for s, e in ex.map(one, todo):
            if e:
                errs.append((s, e))
    return objs, errs


# known to clash with others in one translation unit (a hint only: groups that do not compile are compiled file by file)
SOLO = re.compile(r'WorldValueResidual|Aperture/FluxMeasurement|GrowthCurve/GrowthCurve|FluxRadius/FluxRadiusTask|SourceXtractor\.cpp')


def compile_jumbo(srcs, san, extra=(), size=8):
    """Library sources a few per translation unit, in separate units where that does not compile."""
    fl = _flags(san, extra)
    pch = _pch(san, extra)
    os.makedirs(f'{CACHE}/obj', exist_ok=True)
    solo, by = [], {}
    for i, s in enumerate(sorted(srcs)):
        if SOLO.search(s) or not s.startswith(REPO):
            solo.append(s)
        else:
            by.setdefault((s[len(REPO):].split('/')[1], i // size), []).append(s)
    groups = list(by.values())
    objs, todo = {}, []
    for g in groups:
        h = hashlib.sha256('\0'.join(_key(fl, s) for s in g).encode()).hexdigest()[:32]
        o = f'{CACHE}/obj/j{h}.o'
        objs['|'.join(g)] = o
        if not os.path.exists(o):
            todo.append((g, o))
    failed = []

    def one(t):
        if isinstance(t, str):
            o2, e2 = compile_all([t], san, extra)
            return [], o2, e2
        g, o = t
        tmp = f'{o}.{os.getpid()}'
        with open(tmp + '.cpp', 'w') as f:
            for i, s in enumerate(g):
                f.write(f'#define logger vj_logger_{i}\n#include "{s}"\n#undef logger\n')
        rc, out = run(['g++'] + fl + ['-include', pch, '-c', tmp + '.cpp', '-o', tmp])
        os.remove(tmp + '.cpp')
        if rc:
            return g, {}, []
        os.replace(tmp, o)
        return [], {}, []
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        for bad, o2, e2 in ex.map(one, solo + todo):
            objs.update(o2)
            errs += e2
            if bad:
                failed += bad
                del objs['|'.join(bad)]
    if failed:
        o2, e2 = compile_all(failed, san, extra)
        objs.update(o2)
        errs += e2
        if os.environ.get('VERIF_TRACE'):
            print('jumbo fallback', failed, file=sys.stderr)
    return objs, errs


def link_order(objs):
    """Static initialisers run in link order: lower modules first, as with the shared libraries of the real build."""
    def rank(src):
        src = src.split('|')[0]
        for i, m in enumerate(MODULES):
            if src.startswith(f'{REPO}/{m}/'):
                return i
        return len(MODULES)
    return [objs[k] for k in sorted(objs, key=lambda k: (rank(k), k))]


def build_program(san):
    """The sourcextractor++ program itself with every library source that can be built here -> path of the executable"""
    extra = ['-I/usr/include/python3.12']
    main = [f'{REPO}/SEMain/src/program/SourceXtractor.cpp', f'{VERIF}/shim/pymodule.cpp']
    objs, errs = compile_jumbo(all_lib_sources() + main, san, extra)
    if errs:
        raise BuildError('\n'.join(f'{s}:\n{e[-2500:]}' for s, e in errs[:3]))
    h = hashlib.sha256('\0'.join(sorted(objs.values())).encode()).hexdigest()[:32]
    exe = f'{CACHE}/bin/sepp-{san}-{h}'
    if not os.path.exists(exe):
        os.makedirs(f'{CACHE}/bin', exist_ok=True)
        tmp = exe + f'.{os.getpid()}'
        rc, out = run(['g++'] + SAN[san] + link_order(objs) + ['-o', tmp] + PYLIBS + LIBS)
        if rc:
            raise BuildError('link: ' + out[-3000:])
        os.replace(tmp, exe)
    return exe


def build(name, harness, san='asan', extra_sources=(), extra_flags=(), python=False, stop=None, libs=()):
    """-> path of the executable"""
    harness = [os.path.join(VERIF, 'harness', h) for h in ([harness] if isinstance(harness, str) else harness)]
    starts = list(harness) + [p for p in (os.path.join(REPO, s) for s in extra_sources) if os.path.exists(p)]
    extra = list(extra_flags) + (['-I/usr/include/python3.12'] if python else [])
    stopre = re.compile(stop) if stop else None
    libsrc = [s for s in source_closure(starts, stopre) if s not in starts]
    objs, errs = compile_all(starts + libsrc, san, extra)
    if errs:
        raise BuildError('\n'.join(f'{s}:\n{e[-2500:]}' for s, e in errs[:3]))
    h = hashlib.sha256(('\0'.join(sorted(objs.values())) + '\0'.join(libs)).encode()).hexdigest()[:32]
    exe = f'{CACHE}/bin/{name}-{san}-{h}'
    if os.path.exists(exe) and not os.path.exists(exe + '.more'):
        return exe
    os.makedirs(f'{CACHE}/bin', exist_ok=True)

    def link(objlist):
        tmp = exe + f'.{os.getpid()}'
        rc, out = run(['g++'] + SAN[san] + list(objlist) + ['-o', tmp] + list(libs) + (PYLIBS if python else []) + LIBS)
        if rc == 0:
            os.replace(tmp, exe)
        return rc, out
    rc, out = link(link_order(objs))
    if rc and 'undefined reference' in out:
        # a definition moved to a file that no header names: find it among the remaining sources
        open(exe + '.more', 'w').close()   # `exe` does not name these objects: link again every time
        undef = set(re.findall(r"undefined reference to `([^'(]+)", out))
        names = {u.split('::')[-1] for u in undef} | {u.split('::')[-2] for u in undef if '::' in u}
        rest = [s for s in all_lib_sources() if s not in objs]
        cand = [s for s in rest if any(n.encode() in open(s, 'rb').read() for n in names)]
        o2, e2 = compile_all(cand, san, extra)
        bad = {s for s, _ in e2}
        rc, out = link(link_order(dict(objs, **{s: o for s, o in o2.items() if s not in bad})))
    if rc:
        raise BuildError('link: ' + out[-3000:])
    return exe


if __name__ == '__main__':
    # python3 vbuild.py NAME HARNESS SAN  (development helper)
    import checks
    spec = checks.BINARIES[sys.argv[1]]
    print(build(sys.argv[1], **spec))
