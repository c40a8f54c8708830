"""Case runner, oracle reporting, evidence and known findings."""
import collections
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

import net
from vclock import CLOCK

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.json')


class Violation(Exception):
    def __init__(self, kind, detail=''):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind, self.detail = kind, detail


class Inconclusive(Exception):
    """The monitors could not observe what they should."""


def short(o, n=400):
    try:
        s = o if isinstance(o, str) else json.dumps(o, default=repr, sort_keys=True)
    except Exception:
        s = repr(o)
    return s if len(s) <= n else s[:n] + '...'


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            return {e['key']: e['what'] for e in json.load(f)['findings'] if e['property'] == prop}
    except FileNotFoundError:
        return {}


class Case:
    """One execution: its own rng, network, scratch directory and trace."""

    def __init__(self, run, family, i):
        self.run, self.family, self.i = run, family, i
        self.prop = run.prop
        self.rng = random.Random('%s/%s/%s/%s' % (run.seed, run.prop, family, i))
        self.trace = []
        self.net = net.use(net.FakeNet())
        self._dir = None
        CLOCK.reset()

    def log(self, what, **kw):
        self.trace.append((what, {k: short(v) for k, v in kw.items()}))

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='case', dir=self.run.scratch)
        return self._dir

    def close(self):
        if self._dir:
            shutil.rmtree(self._dir, ignore_errors=True)

    # oracle API
    def seen(self, *key):
        """Note a distinct non-trivial thing that the monitors judged."""
        self.run.note(self.family, key)

    def ev(self, name, n=1):
        """Count events the monitors observed."""
        self.run.events[name] += n

    def check(self, cond, kind, detail=''):
        self.run.events['assertions'] += 1
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def equal(self, got, want, kind, detail=''):
        self.run.events['assertions'] += 1
        if got != want or type(got) is bool and type(want) is not bool:
            raise Violation(kind, '%s got=%s want=%s' % (detail() if callable(detail) else detail, short(got), short(want)))

    def finding(self, key, detail):
        """A deviation that may be a listed known finding. Identified by key."""
        if self.run.is_known(key):
            self.run.known_seen.setdefault(key, short(detail))
            return
        raise Violation(key, detail)

    def refused(self, fn, kind, detail='', allow=None):
        """fn() must raise. Returns the exception."""
        self.run.events['assertions'] += 1
        self.run.events['refusals checked'] += 1
        try:
            r = fn()
        except Violation:
            raise
        except Exception as err:
            if allow and not isinstance(err, allow):
                raise Violation(kind, '%s wrong exception %r' % (short(detail), err))
            return err
        raise Violation(kind, '%s accepted: %s' % (short(detail), short(r)))


QUICK_SCALE = 3


class Run:
    def __init__(self, prop, tier, seed, worker=0, workers=1, only=None, budget=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.worker, self.workers, self.only = worker, workers, only
        self.quick = tier == 'quick'
        self.t0 = time.monotonic()
        self.budget = budget or (100 if self.quick else 600)
        self.evaluations = 0
        self.distinct = set()
        self.events = collections.Counter()
        self.families = collections.Counter()
        self.samples = []
        self.violations = []
        self.kinds = set()
        self.known_seen = {}
        self.rule = ''
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self._known = known_findings(prop)

    def is_known(self, key):
        return key in self._known

    def note(self, family, key):
        h = hashlib.blake2b(repr((family, key)).encode(), digest_size=8).hexdigest()
        self.distinct.add(h)

    def left(self):
        return self.budget - (time.monotonic() - self.t0)

    def cases(self, family, n, fn, thorough=None, share=None, cap=None):
        """Run fn(case, rng, i) for i in range(n) (n_thorough in the thorough tier).

        n may be a list: then i is the item. share limits the part of the budget.
        """
        if self.only:
            if self.only[0] != family:
                return
            items = [(self.only[1], n[self.only[1]] if isinstance(n, list) else self.only[1])]
            for idx, item in items:
                self.case(family, idx, item, fn)
            return
        if os.environ.get('VERIF_FAMILY', family) != family:     # development aid
            return
        if not self.quick and thorough is not None:
            n = thorough
        elif not isinstance(n, list) and thorough:
            n = min(n * QUICK_SCALE, thorough)
        items = n if isinstance(n, list) else range(n)
        limit = self.left() * (share or 1.0)
        t0 = time.monotonic()
        for idx, item in enumerate(items):
            if idx % self.workers != self.worker:
                continue
            if time.monotonic() - t0 > limit or self.left() < 0:
                self.events['cases cut by time budget (%s)' % family] += 1
                break
            self.case(family, idx, item, fn)
            if len(self.violations) >= 4:
                break

    def case(self, family, idx, item, fn):
        if len(self.violations) >= 4:
            return
        c = Case(self, family, idx)
        self.evaluations += 1
        self.families[family] += 1
        cwd = os.getcwd()
        try:
            fn(c, c.rng, item)
        except Violation as v:
            self.violation(c, item, v.kind, v.detail, traceback.format_exc())
        except Inconclusive:
            raise
        except Exception as err:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = tb[-1] if tb else None
            self.violation(c, item, 'unexpected %s' % type(err).__name__,
                           '%s at %s:%s' % (short(str(err)), where and where.filename, where and where.lineno),
                           traceback.format_exc())
        finally:
            os.chdir(cwd)
            if self.families[family] in (1, 17) and len(self.samples) < 12:
                self.samples.append({'family': family, 'case': idx, 'input': short(item, 200),
                                     'trace': [[w, k] for w, k in c.trace[:6]],
                                     'http': ['%s %s -> %s' % (r.method, short(r.url, 120), r.status)
                                              for r in c.net.log[:8]]})
            self.events['http requests observed'] += len(c.net.log)
            c.close()

    def violation(self, c, item, kind, detail, tb):
        key = (c.family, kind)
        if key in self.kinds and not os.environ.get("ALLV"):
            return
        self.kinds.add(key)
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        name = '%s-%s-%s.json' % (self.prop, c.family, c.i)
        path = os.path.join(EVID, 'replay', name)
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'family': c.family,
                       'index': c.i, 'item': short(item, 2000), 'kind': kind, 'detail': short(detail, 4000),
                       'replay_cmd': '/verif/check %s --replay %s' % (self.prop, path),
                       'trace': c.trace, 'http': [r.brief() for r in c.net.log], 'traceback': tb},
                      f, indent=1, default=repr)
        self.violations.append({'kind': kind, 'detail': short(detail, 600), 'replay': path, 'family': c.family})

    def result(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        return {'evaluations': self.evaluations, 'distinct': sorted(self.distinct),
                'events': dict(self.events), 'families': dict(self.families), 'samples': self.samples,
                'violations': self.violations, 'known': self.known_seen, 'rule': self.rule,
                'assumptions': self.assumptions}
