"""Reporting: violations, known findings and evidence."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import Broken, REPO, VERIF


class Check:
    def __init__(self, prop, level='other', rule=''):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.viol = []      # (key, where, message)
        self.coverage = {}
        self.obligations = 0
        self.samples = []
        self.assumptions = []

    def violation(self, key, where, message):
        if not any(v[0] == key and v[1] == where for v in self.viol):
            self.viol.append((key, where, message))

    def obligation(self, n=1, sample=None):
        self.obligations += n
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def require(self, what, count, minimum):
        """Anti-vacuity: the analysis found at least `minimum` instances."""
        self.coverage[what] = count
        if count < minimum and not self.viol:
            raise Broken('%s: found only %d instances of %s, expected at least %d'
                         % (self.prop, count, what, minimum))

    def known(self):
        path = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(path):
            return []
        return [k for k in json.load(open(path))['findings']
                if k['property'] == self.prop and k.get('status') == 'known']

    def finish(self):
        known = self.known()
        new = []
        for key, where, msg in self.viol:
            hit = next((k for k in known if k['key'] == key), None)
            if hit:
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, hit['what'], where))
            else:
                new.append((key, where, msg))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.coverage)
        n_bad = len(self.viol)
        if self.level == 'proof':
            cov.update(obligations=self.obligations,
                       discharged=self.obligations - n_bad,
                       checker_cmd='checks/%s.py' % self.prop,
                       trusted_base=['clang-20 front end', 'shims', 'this checker'])
        cov['obligations_checked'] = self.obligations
        cov.setdefault('explanation', self.rule)
        cov['samples'] = self.samples or ['(none)']
        ev = dict(property=self.prop, tier=os.environ.get('VERIF_TIER', 'quick'),
                  seed=int(os.environ.get('VERIF_SEED', '1')), level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if new:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.replay.txt')
            with open(rp, 'w') as f:
                f.write('Rule: %s\n\n' % self.rule)
                for key, where, msg in new:
                    f.write('%s\n  key: %s\n  %s\n\n' % (where, key, msg))
            for key, where, msg in new[:20]:
                print('%s: %s [%s]' % (where, msg, key))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s obligations=%d %s' % (
            self.prop, self.obligations,
            ' '.join('%s=%s' % (k, v) for k, v in self.coverage.items()
                     if isinstance(v, (int, float)))))
        return 0


def main(fn, prop, level='other', rule=''):
    c = Check(prop, level, rule)
    try:
        fn(c)
        rc = c.finish()
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % prop)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
