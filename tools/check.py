#!/usr/bin/env python3
"""Runs the monitors of one property: check.py <ID> [--tier quick|thorough] [--seed N] [--only BIN[:SECTION]]

exit 0: held on everything explored; exit 1: VIOLATION line(s); exit 2: the check itself failed (no verdict)."""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
import checks

VERIF = vbuild.VERIF
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
T0 = time.time()
LIMIT = 780


def env_for(scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('VSHIM_', 'ASAN_', 'TSAN_', 'UBSAN_')):
            del e[k]
    e['VH_SCRATCH'] = scratch
    e['TMPDIR'] = scratch
    e['ASAN_OPTIONS'] = 'detect_leaks=0:handle_abort=1:abort_on_error=0:exitcode=77:detect_odr_violation=0:max_allocation_size_mb=6000:detect_stack_use_after_return=0:allocator_may_return_null=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=78'
    e['TSAN_OPTIONS'] = ('halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:'
                         f'report_thread_leaks=0:suppressions={VERIF}/harness/tsan.supp')
    e['LC_ALL'] = 'C'
    e['VERIF_DIR'] = VERIF
    e['REPO_DIR'] = vbuild.REPO
    e['OPENBLAS_NUM_THREADS'] = e['OMP_NUM_THREADS'] = '1'
    return e


FRAME = re.compile(r'#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:/|\(|<null>|\.\./)')


def frames(block):
    """function names (no template args / parameters) of the /repo frames in a sanitizer stack"""
    res = []
    for line in block.splitlines():
        m = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ in )?(.*)$', line)
        if not m:
            continue
        s = m.group(1)
        if '/repo/' not in s and vbuild.REPO not in s:
            continue
        name = re.split(r'[(<]', s)[0].strip()
        res.append(name.split(' ')[-1] if name else '?')
    return res


def crash_key(rc, text):
    m = re.search(r'runtime error: (.*)', text)
    if m:
        msg = re.sub(r'0x[0-9a-f]+|-?\d[\d.e+]*', 'N', m.group(1))[:80]
        fr = frames(text[m.start():]) or ['?']
        return f'ubsan:{msg.strip()}:{fr[0]}'
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', text)
    if m and m.group(1) not in ('ABRT',):
        fr = frames(text[m.start():]) or ['?']
        return f'asan:{m.group(1)}:{fr[0]}'
    m = re.search(r"Assertion [`'](.*?)' failed", text)
    if m:
        return f'assert:{m.group(1)[:80]}'
    m = re.search(r'terminate called after throwing an instance of \'(.*?)\'', text)
    if m:
        return f'terminate:{m.group(1)}'
    if rc < 0:
        return f'signal:{signal.Signals(-rc).name}'
    return f'exit:{rc}'


def races(text):
    out = []
    for blk in text.split('=================='):
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', blk)
        if not m:
            continue
        stacks = re.split(r'\n\s*\n', blk)
        tops = []
        for s in stacks[:4]:
            if re.search(r'(Read|Write|read|write) of size|acquired|Mutex', s):
                f = frames(s)
                if f:
                    tops.append(f[0])
        key = f'tsan:{m.group(1).strip()}:' + '|'.join(sorted(set(tops[:2])))
        out.append((key, blk.strip()[:6000], bool(tops)))
    return out


class Runner:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.lock = threading.Lock()
        self.viol = []          # dicts: key,msg,binary,section,case,log
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.counters = {}
        self.inconclusive = []
        self.n = 0

    def invoke(self, binary, exe, section, a, b, timeout):
        with self.lock:
            self.n += 1
            tag = f'{self.n}'
        d = os.path.join(self.scratch, 'run' + tag)
        os.makedirs(d)
        out, crumb, log = f'{d}/out.json', f'{d}/crumb', f'{d}/log'
        cmd = (exe if isinstance(exe, list) else [exe]) + ['--seed', str(self.seed), '--tier', self.tier, '--section', section, '--from', str(a), '--to', str(b),
               '--out', out, '--crumb', crumb]
        with open(log, 'wb') as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env_for(d), cwd=d, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
                to = False
            except subprocess.TimeoutExpired:
                to = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                rc = p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        text = open(log, 'rb').read()[-200000:].decode('utf8', 'replace')
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        at = a
        try:
            at = int(open(crumb).read().split()[-1])
        except (OSError, IndexError, ValueError):
            pass
        shutil.rmtree(d, ignore_errors=True)
        return rc, to, text, res, at

    def absorb(self, binary, res):
        with self.lock:
            self.evals += res['evaluations']
            self.sigs.update(res['sigs'])
            for s in res['samples']:
                if len(self.samples) < 60:
                    self.samples.append(s)
            for k, v in res['counters'].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for v in res['violations']:
                self.viol.append(dict(v, binary=binary, log=''))

    def shard(self, binary, exe, san, section, a, b, timeout):
        crashes = 0
        while a < b:
            if self.tier != 'thorough':
                # a verdict is due within the time a check gets: hanging code must not eat it all
                left = LIMIT - (time.time() - T0)
                if left < 20 or any(v['key'] == f'hang:{section}' for v in self.viol):
                    if self.viol:
                        return
                    raise RuntimeError('out of time without a verdict')
                timeout = min(timeout, left)
            rc, to, text, res, at = self.invoke(binary, exe, section, a, b, timeout)
            if to:
                one = 120 if self.tier == 'thorough' else 60
                # a hang is only believed if the same case hangs again on its own
                rc2, to2, text2, res2, at2 = self.invoke(binary, exe, section, at, at + 1, one)
                if to2:
                    with self.lock:
                        self.viol.append(dict(key=f'hang:{section}', msg=f'case did not finish within {one} s, twice', section=section,
                                              case=at, binary=binary, log=text2[-4000:]))
                else:
                    with self.lock:
                        self.inconclusive.append(f'{binary}:{section}#{at} timed out once')
                    if res2:
                        self.absorb(binary, res2)
                crashes += 1
                if crashes > 2:
                    return
                a = at + 1
                continue
            for key, blk, in_repo in races(text):
                if in_repo:
                    with self.lock:
                        self.viol.append(dict(key=key, msg='ThreadSanitizer report', section=section, case=at, binary=binary, log=blk))
            if res and res.get('complete') and rc == 0:
                self.absorb(binary, res)
                return
            if rc == 99:
                raise RuntimeError(f'harness error in {binary}:{section}: {text[-2000:]}')
            if rc == -signal.SIGKILL:
                with self.lock:
                    self.inconclusive.append(f'{binary}:{section}#{at} killed')
                a = at + 1
                crashes += 1
                if crashes > 2:
                    raise RuntimeError(f'{binary}:{section} keeps being killed')
                continue
            key = crash_key(rc, text)
            with self.lock:
                self.viol.append(dict(key=key, msg=f'process ended with {rc} in this case', section=section, case=at, binary=binary, log=text[-6000:]))
            crashes += 1
            if crashes > 3:
                return
            # keep what was seen before the crash: rerun the prefix without the crashing case, then go on after it
            if at > a:
                rc3, to3, _, res3, _ = self.invoke(binary, exe, section, a, at, timeout)
                if res3:
                    self.absorb(binary, res3)
            a = at + 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    a = ap.parse_args()
    spec = checks.PROPS[a.prop]
    scratch = tempfile.mkdtemp(prefix=f'verif-{a.prop}-')
    try:
        rc = go(a, spec, scratch)
    except (vbuild.BuildError, RuntimeError, Exception) as e:
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
        print(f'CHECK-ERROR property={a.prop} {type(e).__name__}: {e}', file=sys.stderr)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def go(a, spec, scratch):
    only_bin = only_sec = None
    if a.only:
        only_bin, _, only_sec = a.only.partition(':')
    r = Runner(a.prop, a.tier, a.seed, scratch)
    jobs = []
    for b in spec['binaries']:
        if only_bin and b != only_bin:
            continue
        bs = dict(checks.BINARIES[b])
        opts = {k: bs.pop(k) for k in ('serial', 'timeout', 'shards', 'scale') if k in bs}
        if 'script' in bs:
            for var, san in bs['programs'].items():
                os.environ[var] = vbuild.build_program(san)
            exe = [sys.executable if os.environ.get('VERIF_SYSPY') else '/opt/veriftools/pyvenv/bin/python', '-B', os.path.join(VERIF, 'harness', bs['script'])]
        else:
            exe = vbuild.build(b, **bs)
        lst = subprocess.run((exe if isinstance(exe, list) else [exe]) + ['--list'], stdout=subprocess.PIPE, env=env_for(scratch), timeout=60, check=True).stdout.decode()
        want = spec.get('sections', {}).get(b)
        for line in lst.splitlines():
            name, q, t = line.split()
            if want and not any(re.fullmatch(w, name) for w in want):
                continue
            if only_sec and name != only_sec:
                continue
            n = int(q) if a.tier != 'thorough' else int(t)
            n = max(1, int(n * opts.get('scale', 1))) if n else 0
            if n == 0:
                continue
            k = min(n, opts.get('shards', 4 if a.tier != 'thorough' else 16))
            for i in range(k):
                lo, hi = n * i // k, n * (i + 1) // k
                if lo < hi:
                    jobs.append((b, exe, bs.get('san', 'asan'), name, lo, hi, opts.get('timeout', 240 if a.tier != 'thorough' else 3000), opts.get('serial', 1)))
    t_build = time.time() - T0
    if not jobs:
        raise RuntimeError('nothing to run')
    errs = []

    def do(j):
        try:
            r.shard(*j[:7])
        except Exception as e:
            errs.append(e)
    # thread-heavy binaries get fewer concurrent processes
    for width in sorted({j[7] for j in jobs}):
        with ThreadPoolExecutor(max(1, vbuild.JOBS // width)) as ex:
            list(ex.map(do, [j for j in jobs if j[7] == width]))
    if errs:
        raise errs[0]
    extra = spec.get('python')
    if extra and not only_bin:
        import importlib
        for e in extra:
            m = importlib.import_module(e)
            m.run(r)
    if r.evals == 0 and not r.viol:
        raise RuntimeError('monitors observed nothing')
    minev = spec.get('min_evaluations', 0)
    known = json.load(open(f'{VERIF}/known_findings.json'))['findings']
    fresh, seen_known = [], {}
    for v in r.viol:
        k = next((f for f in known if f['property'] == a.prop and (f['key'] == v['key'])), None)
        if k:
            seen_known.setdefault(k['key'], (k, v))
        else:
            fresh.append(v)
    if not fresh and r.evals < minev:
        raise RuntimeError(f'only {r.evals} oracle evaluations, expected at least {minev}')
    os.makedirs(f'{EVID}/replay', exist_ok=True)
    vio_out, printed = [], set()
    for v in fresh:
        if v['key'] in printed:
            continue
        printed.add(v['key'])
        rp = f"{EVID}/replay/{a.prop}-{len(printed)}.json"
        json.dump(dict(property=a.prop, key=v['key'], message=v['msg'], binary=v['binary'], section=v['section'], case=v['case'], seed=a.seed,
                       tier=a.tier, reproduce=f"python3 {VERIF}/tools/check.py {a.prop} --tier {a.tier} --seed {a.seed} --only {v['binary']}:{v['section']}  # or run the binary with --case {v['case']}",
                       log=v['log']), open(rp, 'w'), indent=1)
        vio_out.append(dict(key=v['key'], message=v['msg'][:600], replay=rp))
        print(f"  {v['section']}#{v['case']} [{v['key']}] {v['msg'][:400]}")
        print(f"VIOLATION property={a.prop} replay={rp}", flush=True)
    for key, (k, v) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=r.evals, distinct_nontrivial=len(r.sigs), rule=spec['rule'], samples=r.samples[:24] or ['(none)'],
                            ),
              assumptions=spec.get('assumptions', []) + checks.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - T0, 2), violations=vio_out)
    ev['coverage']['counters'] = r.counters
    ev['coverage']['inconclusive'] = r.inconclusive
    ev['coverage']['known_findings_seen'] = sorted(seen_known)
    os.makedirs(EVID, exist_ok=True)
    tmp = f'{EVID}/.{a.prop}.{os.getpid()}'
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, f'{EVID}/{a.prop}.json')
    print(f"property={a.prop} tier={a.tier} evaluations={r.evals} distinct={len(r.sigs)} build={t_build:.1f}s wall={time.time()-T0:.1f}s"
          + (f" inconclusive={len(r.inconclusive)}" if r.inconclusive else ''))
    return 1 if fresh else 0


if __name__ == '__main__':
    main()
