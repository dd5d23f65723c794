"""Reporting shared by all checks: violations, known findings, evidence."""
import json, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.violations = []          # (key, text, data)
        self.known_hits = {}
        self.notes = []
        self.coverage = {}
        self.assumptions = []
        self.level = 'other'
        path = os.path.join(VERIF, 'known_findings.json')
        self.known = {}
        if os.path.exists(path):
            for e in json.load(open(path)):
                if e['status'] == 'known' and e['property'] == pid:
                    self.known[e['key']] = e

    def violation(self, key, text, **data):
        if any(k == key for k, _, _ in self.violations):
            return
        self.violations.append((key, text, data))

    def part(self, f, *a, **k):
        """one part of a check: what it does not understand leaves the other parts alone"""
        try:
            return f(*a, **k)
        except Exception as e:
            t = ''.join(traceback.format_exception(e)[-3:])
            self.notes.append('%s was not finished: %s' % (getattr(f, '__name__', 'a part'), t[-500:]))
            return None

    def done(self, futures):
        """the futures that have a result; the others are noted"""
        for fu in futures:
            try:
                fu.result()
            except Exception as e:
                self.notes.append('a part was not finished: %s' % ''.join(traceback.format_exception(e)[-2:])[-500:])
                continue
            yield fu

    def gather(self, ex, f, jobs):
        """results of the jobs; a job that fails is noted and left out"""
        r = []
        for j, fu in [(j, ex.submit(f, j)) for j in jobs]:
            try:
                r.append(fu.result())
            except Exception as e:
                t = ''.join(traceback.format_exception(e)[-2:])
                self.notes.append('%s was not finished: %s' % (str(j)[:80], t[-500:]))
        return r

    def finding(self, key, text, **data):
        """a deviation that is a violation unless listed"""
        if key in self.known:
            self.known_hits.setdefault(key, text)
        else:
            self.violation(key, text, **data)

    def finish(self):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
              'coverage': self.coverage, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        if self.notes:
            self.coverage['notes'] = self.notes[:40]
        if self.known_hits:
            self.coverage['known_findings'] = {k: v for k, v in self.known_hits.items()}
        d = os.environ.get('VP_OUT') or os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(d, 'replay'), exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + '.json'), 'w'), indent=1, default=str)
        for n in self.notes[:5]:
            print('note: ' + ' '.join(str(n).split())[-300:])
        for k, e in sorted(self.known_hits.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, e))
        for i, (key, text, data) in enumerate(self.violations[:20]):
            p = os.path.join(d, 'replay', '%s-%d.json' % (self.pid, i))
            json.dump({'property': self.pid, 'key': key, 'report': text, 'data': data}, open(p, 'w'), indent=1, default=str)
            print('  %s: %s' % (key, text))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, VERIF)))
        if len(self.violations) > 20:
            print('  ... and %d more' % (len(self.violations) - 20))
        print('%s: %s, %.1f s' % (self.pid, 'violated' if self.violations else 'held on everything analysed', time.time() - self.t0))
        return 1 if self.violations else 0
