"""
python3 -m alcheck.run <property>: run one check, write its evidence.

Exit 0: held; 1: VIOLATION line printed; 2: the analysis is broken (an anchor
has vanished, or the analysis itself failed).
"""
import hashlib
import importlib
import json
import os
import pickle
import re
import resource
import sys
import tempfile
import time
import traceback

from . import harness
from .loader import REPO, AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get(
    'ALCHECK_EVIDENCE', os.path.join(HERE, 'evidence'))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '0'))
        except ValueError:
            self.seed = 0
        self.violations = []        # [(key, message, details)]
        self.obligations = []       # [(rule, construct, status, note)]
        self.stats = {}
        self.assumptions = []
        self.samples = []
        self.explanation = ''
        # No new part of the work is started after this.
        self.until = time.time() + (800 if self.thorough else 600)
        harness.UNTIL[:] = [self.until]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ok(self, rule, construct, note=''):
        self.obligations.append((rule, construct, 'holds', note))

    def undecided(self, rule, construct, note=''):
        self.obligations.append((rule, construct, 'undecided', str(note)))

    def violation(self, rule, construct, message, details=()):
        """
        construct: names the function, call site text or scenario, without
        line numbers; the key under which a known finding is listed.
        """
        key = '{}|{}'.format(rule, construct)
        self.obligations.append((rule, construct, 'VIOLATED', message))
        if key not in [i[0] for i in self.violations]:
            self.violations.append((key, message, list(details)))

    def decide(self, cond, rule, construct, message, details=()):
        """cond: True, False or None (not known)"""
        if cond is None:
            self.undecided(rule, construct, message)
        elif cond:
            self.ok(rule, construct)
        else:
            self.violation(rule, construct, message, details)

    def parallel(self, jobs, workers=7):
        """
        Call each job (a function without arguments that adds obligations to
        this object) in forked processes; the results are put together in
        the order of the jobs.
        """
        jobs = list(jobs)
        workers = max(1, min(workers, os.cpu_count() or 1, len(jobs)))
        files, pids = [], []
        for w in range(workers):
            fp = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                status = 1
                try:
                    out = {}
                    for n in range(w, len(jobs), workers):
                        self.violations, self.obligations = [], []
                        self.stats = {}
                        if time.time() > self.until:
                            self.undecided('time', 'part {}'.format(n),
                                           'there was no time for it')
                            self.stats['skipped'] = 1
                        else:
                            jobs[n]()
                        out[n] = (self.violations, self.obligations,
                                  self.stats)
                    pickle.dump(out, fp)
                    fp.flush()
                    status = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(status)
            files.append(fp)
            pids.append(pid)
        done = {}
        for pid, fp in zip(pids, files):
            if os.waitpid(pid, 0)[1] != 0:
                raise AnalysisBroken('a worker failed')
            fp.seek(0)
            done.update(pickle.load(fp))
            fp.close()
        for n in range(len(jobs)):
            violations, obligations, stats = done[n]
            have = set(i[0] for i in self.violations)
            self.violations.extend(i for i in violations if i[0] not in have)
            self.obligations.extend(obligations)
            for k, v in stats.items():
                self.count(k, v)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def need(self, name, least, what=''):
        """Fewer instances than confirmed by hand: the rule is vacuous."""
        if self.stats.get(name, 0) < least and not self.stats.get('skipped'):
            raise AnalysisBroken('{}: {} instances, expected at least {} {}'
                                 .format(name, self.stats.get(name, 0), least,
                                         what))


def known_findings():
    ret = {}
    try:
        with open(KNOWN) as fp:
            for line in fp:
                m = re.match(r'^finding: property=(\S+) key=(.*?) :: (.*)$',
                             line.rstrip('\n'))
                if m:
                    ret[(m.group(1), m.group(2))] = m.group(3)
    except FileNotFoundError:
        pass
    return ret


def main(argv):
    pid = argv[1]
    ctx = Ctx(pid)
    started = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        mod = importlib.import_module('alcheck.checks.' + pid.lower())
        mod.check(ctx)
        if not ctx.obligations:
            raise AnalysisBroken('no obligations were generated')
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property={} {}'.format(pid, e))
        if not ctx.violations:
            return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property={} internal error'.format(pid))
        if not ctx.violations:
            return 2

    known = known_findings()
    new = []
    for key, message, details in ctx.violations:
        if (pid, key) in known:
            print('KNOWN-FINDING: property={} {} [{}]'.format(
                pid, known[(pid, key)], key))
        else:
            new.append((key, message, details))

    held = sum(1 for i in ctx.obligations if i[2] == 'holds')
    und = [i for i in ctx.obligations if i[2] == 'undecided']
    coverage = {
        'explanation': (ctx.explanation or mod.__doc__ or '').strip(),
        'obligations': len(ctx.obligations),
        'discharged': held,
        'undecided': len(und),
        'undecided_list': ['{}: {}: {}'.format(i[0], i[1], i[3])[:300]
                           for i in und[:80]],
        'rules': {},
        'counts': ctx.stats,
        'samples': ctx.samples[:20] or [
            '{}: {}: {}'.format(*i[:3]) for i in ctx.obligations[:12]],
    }
    for rule, construct, status, note in ctx.obligations:
        r = coverage['rules'].setdefault(rule, {})
        r[status] = r.get(status, 0) + 1
    evidence = {
        'property': pid, 'tier': ctx.tier, 'seed': ctx.seed,
        'level': getattr(mod, 'LEVEL', 'other'), 'coverage': coverage,
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - started, 2),
        'violations': len(new),
        'analysed_root': REPO,
        'max_rss_kb': resource.getrusage(resource.RUSAGE_SELF).ru_maxrss,
    }
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1, sort_keys=True)
        fp.write('\n')

    shown = 0
    for key, message, details in new:
        path = os.path.join(EVIDENCE, '{}-{}.txt'.format(
            pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
        with open(path, 'w') as fp:
            fp.write('property: {}\nkey: {}\n{}\n'.format(pid, key, message))
            for d in details:
                fp.write('  {}\n'.format(d))
        shown += 1
        if shown > 12:
            continue
        print('{}: {}'.format(key, message))
        for d in details[:12]:
            print('    {}'.format(d))
        print('VIOLATION property={} replay={}'.format(pid, path))
    print('{}: {} obligations, {} hold, {} undecided, {} violated, {:.1f}s'
          .format(pid, len(ctx.obligations), held, len(und), len(new),
                  time.time() - started))
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
