"""Check driver: runs one rule module on the current source tree, writes the evidence file, prints the verdict.

exit 0  the rule holds at every instance analysed (known findings are printed, not failed)
exit 1  VIOLATION line, details in evidence/<id>.violations.txt
exit 2  the analysis itself is broken (anchors vanished, self-test did not fire, tree does not parse)
"""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    pass


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []          # (key, location, message)
        self.counts = {}        # measured counts
        self.floors = []        # (name, measured, floor)
        self.notes = []
        self.samples = []
        self.rule = ''
        self.assumptions = []
        self.undecided = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, key, loc, msg):
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, loc, msg))

    def floor(self, name, n, floor):
        self.counts[name] = n
        self.floors.append((name, n, floor))

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def undec(self, what, limit=40):
        """an instance outside the fragment the rule decides: counted, never reported"""
        self.count('undecided instances')
        if len(self.undecided) < limit:
            self.undecided.append(what)


def known(pid):
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                parts = line[len('finding:'):].strip().split(' ', 2)
                if parts[0] == f'property={pid}' and parts[1].startswith('key='):
                    out[parts[1][4:]] = parts[2] if len(parts) > 2 else ''
    return out


def load(pid):
    return importlib.import_module(f'sa.rules.{pid.lower()}')


_shared = {}


def project(root=None):
    from .project import Project
    k = ('p', root)
    if k not in _shared:
        _shared[k] = Project(root) if root else Project()
    return _shared[k]


def pta(root=None):
    from .pta import PTA
    k = ('a', root)
    if k not in _shared:
        _shared[k] = PTA(project(root))
    return _shared[k]


def spmd(root=None):
    from .spmd import Spmd
    k = ('s', root)
    if k not in _shared:
        _shared[k] = Spmd(project(root), pta(root))
    return _shared[k]


class Tree:
    """what a rule sees: the parsed project plus lazily built whole-program analyses"""

    def __init__(self, root=None):
        self.root = root

    @property
    def p(self):
        return project(self.root)

    @property
    def a(self):
        return pta(self.root)

    @property
    def s(self):
        return spmd(self.root)


def selftest(mod, pid):
    """positive examples: every folder samples/<id>/bad_* must be reported, every good_* must be silent"""
    base = os.path.join(VERIF, 'samples', pid)
    n = 0
    if not os.path.isdir(base):
        return 0
    for d in sorted(os.listdir(base)):
        path = os.path.join(base, d)
        if not os.path.isdir(path):
            continue
        r = Report(pid)
        mod.run(Tree(path), r, sample=True)
        if d.startswith('bad') and not r.viol:
            raise Broken(f'self-test: sample {d} is not reported any more')
        if d.startswith('good') and r.viol:
            raise Broken(f'self-test: sample {d} is reported: {r.viol[0]}')
        n += 1
    return n


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for x in argv[1:]:
        if x in ('quick', 'thorough'):
            tier = x
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    r = Report(pid)
    try:
        mod = load(pid)
        tests = selftest(mod, pid)
        mod.run(Tree(), r, sample=False)
        for name, n, fl in r.floors:
            if n < fl and not [v for v in r.viol if v[0] not in known(pid)]:
                raise Broken(f'{name}: {n} instances found, at least {fl} expected: the anchors of the rule vanished')
    except Broken as e:
        print(f'ANALYSIS-BROKEN property={pid} {e}')
        for u in r.undecided:
            print('  undecided:', u[:300])
        for k, loc, msg in r.viol[:20]:
            print('  reported:', loc, msg[:300])
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid} internal error')
        return 2
    kn = known(pid)
    new = [v for v in r.viol if v[0] not in kn]
    old = [v for v in r.viol if v[0] in kn]
    for k, loc, msg in old:
        print(f'KNOWN-FINDING: property={pid} {kn[k] or msg} [{k}]')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    vp = os.path.join(VERIF, 'evidence', f'{pid}.violations.txt')
    with open(vp, 'w') as f:
        for k, loc, msg in new:
            f.write(f'{loc}\n  rule: {r.rule}\n  instance: {k}\n  {msg}\n')
    cov = {'explanation': (r.rule + ' ' + ' '.join(r.notes)).strip()}
    cov.update(r.counts)
    cov['self_test_samples'] = tests
    if r.samples:
        cov['samples'] = r.samples
    if r.undecided:
        cov['undecided'] = r.undecided
    cov['floors'] = {n: fl for n, _, fl in r.floors}
    cov['known_findings_seen'] = len(old)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': r.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        for k, loc, msg in new[:20]:
            print(f'{loc}: {msg} [{k}]')
        print(f'VIOLATION property={pid} replay={vp}')
        return 1
    print(f'OK property={pid} ' + ', '.join(f'{k}={v}' for k, v in r.counts.items()))
    return 0
