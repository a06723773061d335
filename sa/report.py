"""Common check driver: obligations, positive controls, known findings, evidence."""
import json, os, sys, time, traceback
from .facts import AnalysisBroken, VERIF, REPO, CACHE

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    """Lines 'finding: property=<id> key=<key> :: <text>' of known_findings.txt."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split('key=', 1)[1]
                key, text = rest.split(' :: ', 1)
                out[key.strip()] = text.strip()
    return out


class Check:
    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.total = 0
        self.bad = {}           # key -> message
        self.und = {}           # key -> reason
        self.by_kind = {}
        self.samples = []
        self.controls = []
        self.functions = set()
        self.paths = 0
        self.extra = {}
        self.floors = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- obligations -------------------------------------------------------
    def ok(self, kind, key, ok, msg='', where=''):
        """One obligation instance; key is a stable identity of the construct."""
        self.total += 1
        self.by_kind[kind] = self.by_kind.get(kind, 0) + 1
        if self.by_kind[kind] <= 2:
            self.samples.append('%s: %s%s' % (kind, key, '' if ok else ' -> ' + msg))
        if not ok:
            k = '%s/%s' % (kind, key)
            if k not in self.bad:
                self.bad[k] = '%s%s' % (where + ': ' if where else '', msg)
        return ok

    def undecided(self, kind, key, why):
        self.und['%s/%s' % (kind, key)] = str(why)

    def floor(self, kind, n):
        self.floors.append((kind, n))

    def control(self, name, fired):
        self.controls.append((name, bool(fired)))

    def visited(self, ids, prog):
        for i in ids:
            f = prog.fn.get(i)
            if f and f['file'].startswith(REPO):
                self.functions.add('%s (%s:%d)' % (f['n'], os.path.relpath(f['file'], REPO), f['l']))

    def merge(self, c):
        self.total += c.total
        for k, n in c.by_kind.items():
            self.by_kind[k] = self.by_kind.get(k, 0) + n
        for k, m in c.bad.items():
            self.bad.setdefault(k, m)
        self.und.update(c.und)
        self.samples += c.samples
        self.functions |= c.functions
        self.paths += c.paths

    def parallel(self, tasks, workers=None):
        """Run each task(sub_check) in forked workers and merge the results."""
        import multiprocessing as mp
        workers = min(workers or len(os.sched_getaffinity(0)), len(tasks)) or 1
        ctx = mp.get_context('fork')
        nxt = ctx.Value('i', 0)
        q = ctx.SimpleQueue()

        def work():
            import threading
            sub = Check(self.prop, self.rule)
            err = None
            done = 0

            def go():
                nonlocal err, done
                sys.setrecursionlimit(20000)
                try:
                    while True:
                        with nxt.get_lock():
                            i = nxt.value
                            nxt.value += 1
                        if i >= len(tasks):
                            break
                        tasks[i](sub)
                        done += 1
                except BaseException as e:
                    err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
            go()
            q.put((done, err, sub.__dict__))
        ps = [ctx.Process(target=work) for _ in range(workers)]
        for p in ps:
            p.start()
        got = []
        for _ in ps:
            got.append(q.get())
        for p in ps:
            p.join()
        n = 0
        subs = []
        for done, err, d in got:
            if err:
                raise AnalysisBroken('worker: ' + err)
            n += done
            c = Check(self.prop, '')
            c.__dict__.update(d)
            subs.append(c)
        if n != len(tasks):
            raise AnalysisBroken('%d of %d tasks finished' % (n, len(tasks)))
        for c in sorted(subs, key=lambda c: sorted(c.by_kind)):
            self.merge(c)

    # -- end ---------------------------------------------------------------
    def finish(self):
        for n, fired in self.controls:
            if not fired:
                raise AnalysisBroken('positive control %s did not fire' % n)
        if not self.controls:
            raise AnalysisBroken('no positive control')
        for kind, n in self.floors:
            got = self.by_kind.get(kind, 0)
            if got < n:
                raise AnalysisBroken('rule %s decided %d instances, expected at least %d%s' % (
                    kind, got, n, '; undecided: ' + '; '.join('%s: %s' % x for x in list(self.und.items())[:5]) if self.und else ''))
        known = known_findings(self.prop)
        new = {k: m for k, m in self.bad.items() if k not in known}
        for k, why in sorted(self.und.items()):
            print('UNDECIDED: property=%s %s: %s' % (self.prop, k, why[:300]))
        for k in self.bad:
            if k in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, known[k]))
        cov = {
            'explanation': self.rule,
            'obligations': self.total,
            'discharged': self.total - len(self.bad),
            'obligations_by_rule': self.by_kind,
            'undecided': len(self.und),
            'abstract_paths': self.paths,
            'functions_analysed': len(self.functions),
            'function_list': sorted(self.functions)[:400],
            'positive_controls': [n for n, _ in self.controls],
            'samples': self.samples[:12],
            'known_findings': [k for k in self.bad if k in known],
        }
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': 'other', 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        ed = os.path.join(VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print('%s: %d obligations decided over %d functions, %d abstract paths, %d undecided, %.1f s' % (
            self.prop, self.total, len(self.functions), self.paths, len(self.und), time.time() - self.t0))
        if new:
            rp = os.path.join(ed, self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                f.write('property %s\nrule: %s\n\n' % (self.prop, self.rule))
                for k, m in sorted(new.items()):
                    f.write('%s\n    %s\n' % (k, m))
            for k, m in sorted(new.items())[:20]:
                print('  %s\n      %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0


def main(argv):
    import importlib
    prop = argv[1]
    if len(argv) > 2:
        os.environ['VERIF_TIER'] = argv[2]
    sys.setrecursionlimit(20000)
    try:
        m = importlib.import_module('checks.' + prop)
        chk = m.run()
        return chk.finish()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        return 3
