"""Runs the static check of one property and writes its evidence.

exit 0  every obligation discharged (or only listed known findings fail)
exit 1  VIOLATION line printed
exit 2  the analysis could not give an answer (anchor vanished, ...)
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from program import Program, AnalysisBroken  # noqa: E402


class Report(object):
    """obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []        # (rule, construct, ok, where, message)
        self.rules = {}      # rule -> text
        self.analysed = set()
        self.notes = []

    def rule(self, name, text, floor=1):
        self.rules[name] = (text, floor)

    def ob(self, rule, construct, ok, where='', message=''):
        """one proof obligation: rule applied to a construct (name, not line)"""
        assert rule in self.rules, rule
        self.obs.append((rule, construct, bool(ok), where, message))
        return ok

    def saw(self, *funcs):
        for f in funcs:
            self.analysed.add(getattr(f, 'qual', f))

    def findings(self):
        seen, out = set(), []
        for o in self.obs:
            if not o[2] and (o[0], o[1]) not in seen:
                seen.add((o[0], o[1]))
                out.append(o)
        return out


def known(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=X rule=R construct=C :: text
                head, _, text = line[6:].partition('::')
                d = dict(x.split('=', 1) for x in head.split())
                if d.get('property') == pid:
                    out.append((d['rule'], d['construct'], text.strip()))
    return out


def main(argv):
    t0 = time.time()
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        mod = importlib.import_module('props.' + pid)
        prog = Program()
        rep = Report(pid)
        rep.tier = tier
        broken = None
        try:
            mod.check(prog, rep)
        except AnalysisBroken as e:
            broken = str(e)
        except Exception:
            traceback.print_exc()
            broken = 'internal error'
        if broken and not rep.findings():
            print('ANALYSIS-BROKEN property=%s %s' % (pid, broken))
            return 2
        if broken:
            rep.notes.append('analysis stopped early: ' + broken)
        selftest = getattr(mod, 'selftest', None)
        st = selftest(rep) if selftest else None
        missed = []
        for r, (text, floor) in rep.rules.items():
            n = sum(1 for o in rep.obs if o[0] == r)
            if n < floor and not rep.findings():
                missed.append('rule %s matched %d instances, at least %d were confirmed by hand' % (r, n, floor))
        rep.notes = list(rep.notes) + ['not covered on this tree: ' + m for m in missed]
        if missed and not rep.obs:
            raise AnalysisBroken('; '.join(missed))
        for m in missed:
            print('NOTE property=%s %s' % (pid, m))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    kn = known(pid)
    bad, quiet = [], []
    for f in rep.findings():
        m = [k for k in kn if k[0] == f[0] and k[1] == f[1].replace(' ', '_')]
        (quiet if m else bad).append((f, m))
    per = {}
    for o in rep.obs:
        d = per.setdefault(o[0], {'rule': rep.rules[o[0]][0], 'instances': 0, 'discharged': 0})
        d['instances'] += 1
        d['discharged'] += int(o[2])
    samples = []
    done = set()
    for o in rep.obs:
        if o[0] not in done or len(samples) < 12:
            done.add(o[0])
            if len(samples) < 30:
                samples.append({'rule': o[0], 'construct': o[1], 'where': o[3], 'discharged': o[2]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the current source (nothing executed): %d functions analysed as entry points or '
                           'inlined, %d obligations over %d rules, %d discharged' % (
                               len(rep.analysed), len(rep.obs), len(rep.rules), sum(o[2] for o in rep.obs)),
            'obligations': len(rep.obs), 'discharged': sum(int(o[2]) for o in rep.obs),
            'functions_analysed': sorted(rep.analysed), 'modules_parsed': len(prog.modules),
            'source_digest': prog.digest(), 'rules': per, 'samples': samples,
            'known_findings': ['%s %s' % (f[0], f[1]) for f, _ in quiet], 'notes': rep.notes,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3), 'violations': len(bad),
    }
    if st is not None:
        ev['coverage']['selftest_positive_examples'] = st
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', pid + '.json')
    replay = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
    with open(evp, 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print('property %s (%s): %d modules, %d functions, %d obligations' % (pid, tier, len(prog.modules), len(rep.analysed), len(rep.obs)))
    for r in sorted(per):
        print('  rule %-28s %4d instances %4d discharged' % (r, per[r]['instances'], per[r]['discharged']))
    for f, m in quiet:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (pid, f[0], f[1], m[0][2]))
    if os.path.exists(replay):
        os.remove(replay)
    if bad:
        with open(replay, 'w') as fh:
            for f, _ in bad:
                line = '%s: rule %s [%s] construct %s: %s' % (f[3], f[0], rep.rules[f[0]][0], f[1], f[4])
                fh.write(line + '\n')
                print(line)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
