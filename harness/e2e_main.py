"""Section registry and command line of the Python-driven monitors (same interface as harness/vh.h)."""
import argparse, hashlib, json, os, random, shutil, sys, traceback

SECTIONS = {}


def section(name, quick, thorough):
    def deco(f):
        SECTIONS[name] = (f, quick, thorough)
        return f
    return deco


class Ctx:
    def __init__(self, state, name, case, rng, dir):
        self._s, self.name, self.case, self.rng, self.dir = state, name, case, rng, dir

    def check(self, ok, key, msg=''):
        self._s['evaluations'] += 1
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(ok)

    def fail(self, key, msg):
        v = self._s['violations']
        if sum(1 for x in v if x['key'] == key) < 3:
            v.append(dict(key=key, msg=str(msg)[:int(os.environ.get("VH_MSG", 1500))], section=self.name, case=self.case))

    def sig(self, s):
        self._s['sigs'].add(hashlib.sha1((self.name + ':' + str(s)).encode()).hexdigest()[:16])

    def sample(self, s):
        if len(self._s['samples']) < 6:
            self._s['samples'].append(f'{self.name}#{self.case}: {s}'[:400])

    def counter(self, k, n=1):
        self._s['counters'][k] = self._s['counters'].get(k, 0) + int(n)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--section')
    ap.add_argument('--from', dest='a', type=int)
    ap.add_argument('--to', dest='b', type=int)
    ap.add_argument('--case', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--crumb')
    ap.add_argument('--keep', action='store_true')
    o = ap.parse_args()
    if o.list:
        for n, (f, q, t) in SECTIONS.items():
            print(n, q, t)
        return 0
    st = dict(evaluations=0, violations=[], samples=[], counters={}, sigs=set())
    f = SECTIONS[o.section][0]
    a, b = (o.case, o.case + 1) if o.case is not None else (o.a, o.b)
    base = os.environ.get('VH_SCRATCH') or '/tmp/vh-e2e-%d' % os.getpid()
    for k in range(a, b):
        if o.crumb:
            with open(o.crumb, 'w') as fh:
                fh.write(str(k))
        d = os.path.join(base, f'{o.section}-{k}')
        os.makedirs(d, exist_ok=True)
        c = Ctx(st, o.section, k, random.Random(f'{o.seed}:{o.section}:{k}'), d)
        try:
            f(c)
        except Exception:
            traceback.print_exc()
            print(f'harness error in case {k}', file=sys.stderr)
            return 99
        if not o.keep:
            shutil.rmtree(d, ignore_errors=True)
        elif o.case is not None:
            print('kept', d)
    st['sigs'] = sorted(st['sigs'])
    st['complete'] = True
    if o.out:
        with open(o.out + '.tmp', 'w') as fh:
            json.dump(st, fh)
        os.replace(o.out + '.tmp', o.out)
    else:
        print(json.dumps(dict(evaluations=st['evaluations'], violations=st['violations'], counters=st['counters'], samples=st['samples']), indent=1))
    return 0
