"""C22: many threads, one handler.

Two ways to produce interleavings, with the same workload and the same oracle:
 sched  a cooperative random scheduler: every line of the library is a possible switch point (sys.settrace),
        one thread runs at a time, so a case number replays its schedule;
 storm  free running threads, tiny switch interval, random delays at the transport.
"""
import collections
import hashlib
import itertools
import json
import os
import random
import sys
import threading
import time

import jose
import locks
import op as opmod
import world as W
from core import Violation, short
from net import jresp
from urllib.parse import parse_qs, urlsplit
from vclock import CLOCK

import oidcrp
from oidcrp.rp_handler import backchannel_logout

try:
    from oidcrp.state_interface import is_index_key
except ImportError:
    def is_index_key(key):
        return any(key.startswith(m) and key.endswith(m) for m in ('__', '::', '..', '==', 'ref'))

SRC = os.path.dirname(os.path.abspath(oidcrp.__file__)) + os.sep
REL = 'http://openid.net/specs/connect/1.0/issuer'
BC_EVENT = 'http://schemas.openid.net/event/backchannel-logout'


class Sched:
    """One thread runs at a time; at library lines the token may be handed to another one."""

    def __init__(self, rng, n, p, park):
        # park: a thread that is switched away from stays away while others take this many steps
        self.rng, self.n, self.p, self.park = rng, n, p, park
        self.parked = {}
        self.cv = threading.Condition()
        self.live, self.cur, self.steps = set(), None, 0
        self.switches, self.takeovers, self.lockwaits = [], 0, 0
        self.local = threading.local()

    def enter(self, k):
        self.local.k = k
        locks.SCHED = self
        with self.cv:
            self.live.add(k)
            if len(self.live) == self.n:
                self.cur = self.rng.randrange(self.n)
                self.cv.notify_all()
            while self.cur is None:
                self.cv.wait(5)
            self._wait(k)

    def leave(self, k):
        with self.cv:
            self.live.discard(k)
            if self.cur == k and self.live:
                self.cur = self.rng.choice(sorted(self.live))
            self.cv.notify_all()

    def _wait(self, k):
        last = self.steps
        while self.cur != k:
            if not self.cv.wait(.05) and self.cur != k:
                if self.steps == last or self.cur not in self.live:
                    # whoever has the token waits for something that a parked thread holds
                    self.takeovers += 1
                    self.cur = k
                    break
                last = self.steps
            else:
                last = self.steps

    def step(self, where):
        k = self.local.k
        if self.cur != k:        # was blocked and overtaken
            with self.cv:
                self._wait(k)
        self.steps += 1
        if self.rng.random() < self.p:
            self.switch(k, where)

    def switch(self, k, where):
        with self.cv:
            if self.park:
                self.parked[k] = self.steps + self.rng.randint(1, self.park)
                ready = [x for x in sorted(self.live) if self.parked.get(x, 0) <= self.steps]
                nxt = self.rng.choice(ready or sorted(self.live))
            else:
                nxt = self.rng.choice(sorted(self.live))
            if nxt != k:
                self.switches.append((k, nxt, where))
                self.cur = nxt
                self.cv.notify_all()
                self._wait(k)

    def blocked(self, k):
        """Thread k waits for a lock of the library: let the others go on."""
        with self.cv:
            others = sorted(self.live - {k})
            if others and self.cur == k:
                self.lockwaits += 1
                self.cur = self.rng.choice(others)
                self.cv.notify_all()
                self._wait(k)
        if not others:
            time.sleep(.001)

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.step((frame.f_code.co_name, frame.f_lineno))
        return self.line


class Sess:
    def __init__(self, op, state, url, by):
        self.op, self.state, self.url, self.by = op, state, url, by
        self.grant = self.result = self.params = None
        self.cleared = False
        self.fin = self.stored = None     # (start, end) ticks of finalize
        self.steps = 0


class World:
    def __init__(self, c, rng, profile):
        self.c, self.rng, self.profile = c, rng, profile
        self.tick = itertools.count()
        self.lock = threading.Lock()
        self.sessions, self.free = [], []
        self.errors = []
        self.counts = collections.Counter()
        n = {'one': 1, 'herd': rng.randint(1, 2), 'new': rng.randint(1, 2), 'many': rng.randint(2, 4)}[profile]
        self.ops, self.keys, confs, self.desc, self.modes = [], [], {}, [], []
        shared_dir = rng.choice([None, 'requests', 'deep/in/requests'])
        requests_dir = rng.random() < .4
        default_needed = rng.random() < .6
        same_sub = rng.random() < .5
        for j in range(n):
            o = opmod.OP(c.net, 'https://op%d.c22.example.com' % j + rng.choice(['', '/t%d' % j]), j, tag='op%d' % j)
            o.rp_jwks = W.rp_public_jwks()
            o.sid = True
            o.md['backchannel_logout_supported'] = o.md['backchannel_logout_session_supported'] = True
            if same_sub:
                o.sub_of = lambda g, o=o: 'u%d@%s' % (g['no'] % 2, o.tag)
            o.idt_on_refresh = rng.random() < .5
            ao = {}
            dp = rng.random() < .35
            if dp:
                o.md['dpop_signing_alg_values_supported'] = ['ES256', 'RS256']
                ao.update(W.dpop(['ES256']))
            rt = rng.choice(['code', 'code', 'code', 'code id_token', 'id_token token', 'id_token'])
            if 'code' in rt and rng.random() < .6:
                ao.update(W.pkce(rng.choice([43, 64, 128])))
            kind = rng.choice(['static', 'static+discovery', 'dynamic', 'default'])
            mode = rng.choice(['plain', 'plain', 'plain', 'by value', 'by reference', 'by reference', 'pushed'])
            if kind == 'default' and default_needed:
                mode = 'plain'
            if mode == 'pushed':
                ao.update(W.par(body_format=rng.choice(['jws', 'urlencoded']), merge_rule=rng.choice(['strict', 'lax'])))
            self.modes.append(mode)
            key = o.issuer
            if kind == 'default' and default_needed:
                self.default_rt = rt
                confs.setdefault('', W.dynamic_conf(None, [rt], rng.choice(W.AUTHS), add_ons=ao))
            else:
                if kind == 'default':
                    kind = 'dynamic'
                cnf, d = W.gen_conf(rng, o, kind=kind, rt=rt, add_ons=ao or {},
                                    auth=rng.choice(W.AUTHS[:2] + ['private_key_jwt']))
                if mode == 'by reference':
                    cnf['local_dir'] = os.path.join(c.dir, shared_dir or o.tag)
                    o.fetch = lambda uri, d=cnf['local_dir']: open(os.path.join(d, uri.rsplit('/', 1)[1])).read()
                if requests_dir:
                    cnf['requests_dir'] = os.path.join(c.dir, 'kept', 'requests')
                if rng.random() < .3:
                    key = 'name-of-%s' % o.tag
                confs[key] = cnf
            self.ops.append(o)
            self.keys.append(key)
            self.desc.append((kind, rt, tuple(sorted(ao)), key == o.issuer, mode))
        self.wf = '' in confs
        if self.wf:
            for j, o in enumerate(self.ops):
                if self.desc[j][0] == 'default':
                    host = 'users%d.example.com' % j
                    c.net.attach('https://' + host, lambda rec, o=o: jresp({'subject': 'x', 'links': [{'rel': REL, 'href': o.issuer}]}))
        self.h = W.handler(confs)
        if profile == 'herd':
            # everybody comes back from the provider at the same time, to clients that have not finished a login
            for _ in range(rng.randint(3, 8)):
                self.free.append(self.begin(rng, None))
        if profile == 'one':
            # the client is there already
            for o, k in zip(self.ops, self.keys):
                self.h.begin(k)
            self.extra = [sum(1 for x in self.db(o) if not is_index_key(x)) for o in self.ops]
            for o in self.ops:
                ctx = W.context(self.h, o)
                for x in [x for x in list(ctx.state._db) if not is_index_key(x)]:
                    self.h.clear_session(x)

    def db(self, o):
        return list(W.context(self.h, o).state._db)

    # ---- what a worker does --------------------------------------------------
    def begin(self, rng, k):
        j = rng.randrange(len(self.ops))
        o, key = self.ops[j], self.keys[j]
        if self.desc[j][0] == 'default' and rng.random() < .3:
            r = self.h.begin(user_id='acct:joe@users%d.example.com' % j)
        else:
            how = {'by value': 'request', 'by reference': 'request_uri'}.get(self.modes[j])
            r = self.h.begin(key, **({'behaviour_args': {'request_param': how}} if how else {}))
        s = Sess(o, r['state'], r['url'], k)
        if self.modes[j] != 'plain':
            s.params = o.resolve(o.read_authz(s.url))
            self.counts['begin, request object ' + self.modes[j]] += 1
        else:
            s.params = dict((a, b[0]) for a, b in parse_qs(urlsplit(s.url).query).items())
        if s.params.get('state') != s.state:
            raise Violation('state of another session in the request', short(s.params))
        with self.lock:
            self.sessions.append(s)
        self.counts['begin'] += 1
        return s

    def finalize(self, rng, s):
        o = s.op
        params = o.resolve(o.read_authz(s.url))
        if params['state'] != s.state or params.get('nonce') != s.params.get('nonce'):
            raise Violation('state or nonce of another session behind the URL', s.url)
        ru, resp, s.grant = o.authorize(s.url, params=params)
        a = next(self.tick)
        r = self.h.finalize(o.issuer, dict(resp))
        s.fin = (a, next(self.tick))
        if 'error' in r:
            raise Violation('login failed', short(dict(r)))
        s.result = r
        W.check_result(self.c, s)
        self.counts['finalize'] += 1

    def use(self, rng, s):
        h, g = self.h, s.grant
        what = rng.choice(['info', 'refresh', 'refresh', 'userinfo', 'valid', 'active', 'logout', 'record'])
        c = self.c
        if what == 'refresh' and g['rts']:
            rt, rts = g['rts'][-1], len(g['rts'])
            r = h.refresh_access_token(s.state)
            c.equal(r['access_token'], g['ats'][-1], 'refresh brought the token of another session')
            c.equal(len(g['rts']), rts + 1, 'number of refreshes of this session')
        elif what == 'userinfo' and g['ats']:
            r = h.get_user_info(s.state)
            c.equal(W.plain(r)['sub'], g['sub'], 'user info of another session')
        elif what == 'valid' and g['ats']:
            c.equal(h.get_valid_access_token(s.state)[0], g['ats'][-1], 'valid access token of another session')
        elif what == 'active' and g['idts']:
            c.equal(h.has_active_authentication(s.state), True, 'authentication lost')
        elif what == 'logout':
            info = h.logout(s.state)
            q = parse_qs(urlsplit(info['url']).query)
            hint = (q.get('id_token_hint') or [None])[0]
            if g['idts']:
                c.check(hint in g['idts'], 'hint of another session', short(q))
        else:
            self.own_record(s)
        self.counts[what] += 1

    def own_record(self, s):
        rec = W.record(self.h, s.state)
        c = self.c
        c.check(rec is not None, 'session lost', s.state)
        c.equal(rec['iss'], s.op.issuer, 'session of another issuer')
        c.equal(rec['auth_request']['state'], s.state, 'request of another session')
        g = s.grant
        if g is not None and s.result is not None:
            c.equal(rec['auth_request'].get('nonce'), g['params'].get('nonce'), 'nonce of another session')
            c.equal(rec['auth_response'].get('code'), g.get('code'), 'code of another session')
            if g['rts']:
                toks = rec.get('refresh_token_response') or rec['token_response']
                c.equal(toks['access_token'], g['ats'][-1], 'token of another session')
        c.check(self.h.get_client_from_session_key(s.state) is self.h.issuer2rp[s.op.issuer], 'client of another issuer')
        c.equal(self.h.state2issuer(s.state), s.op.issuer, 'issuer of a session')

    def clear(self, rng, s):
        o = s.op
        if s.grant and s.result['id_token'] is not None and rng.random() < .5:
            cl = self.h.issuer2rp[o.issuer]
            now = int(CLOCK.now)
            alg = o.alg_for(s.grant['client_id'])
            lt = jose.jws({'iss': o.issuer, 'aud': s.grant['client_id'], 'iat': now, 'jti': o.fresh('jti'), 'sid': s.grant['sid'],
                           'events': {BC_EVENT: {}}}, alg, o.key_for(alg, s.grant['client_id']))
            st = backchannel_logout(cl, request_args={'logout_token': lt})
            self.c.equal(st, s.state, 'logout token led to another session')
            self.counts['backchannel'] += 1
        self.h.clear_session(s.state)
        s.cleared = True
        self.counts['clear'] += 1
        if W.record(self.h, s.state) is not None:
            raise Violation('cleared session is still there', s.state)

    def step(self, rng, k):
        """One operation. A session is in the hands of one thread at a time."""
        s = None
        with self.lock:
            if self.free and rng.random() < (1 if self.profile == 'herd' else .75):
                s = self.free.pop(rng.randrange(len(self.free)))
        if s is None:
            s = self.begin(rng, k)
        elif s.result is None:
            self.finalize(rng, s)
            if s.by != k:
                self.counts['handed over'] += 1
        elif rng.random() < .22:
            self.clear(rng, s)
        else:
            self.use(rng, s)
        s.steps += 1
        if not s.cleared:
            with self.lock:
                self.free.append(s)

    # ---- afterwards ------------------------------------------------------------
    def final(self):
        c, h = self.c, self.h
        used = {s.op.issuer for s in self.sessions} | ({o.issuer for o in self.ops} if self.profile == 'one' else set())
        c.equal(sorted(h.issuer2rp), sorted(used), 'clients of the handler')
        c.equal(len({id(x) for x in h.issuer2rp.values()}), len(used), 'one client per issuer')
        sts = [s.state for s in self.sessions]
        c.equal(len(set(sts)), len(sts), 'two sessions with one state')
        nonces = [x for x in (s.params.get('nonce') for s in self.sessions) if x]
        c.equal(len(set(nonces)), len(nonces), 'two sessions with one nonce')
        for o in self.ops:
            if o.issuer not in used:
                continue
            mine = [s for s in self.sessions if s.op is o]
            cids = {s.params['client_id'] for s in mine}
            ctx = W.context(h, o)
            c.check(cids <= {ctx.client_id}, 'sessions with another client than the one that is kept', '%s %s' % (cids, ctx.client_id))
            live = {s.state for s in mine if not s.cleared}
            db = ctx.state._db
            c.equal(sorted(k for k in db if not is_index_key(k)), sorted(live), 'sessions in the store')
            for s in mine:
                if s.cleared:
                    c.equal(W.record(h, s.state), None, 'cleared session came back')
                else:
                    self.own_record(s)
                    self.c.ev('sessions compared at the end')
            # every index entry leads to a live session
            for key, val in list(db.items()):
                if is_index_key(key) and not key.startswith('ref'):
                    c.check(val in live, 'index entry of a session that is gone', '%s -> %s' % (key, val))
            for s in mine:
                n = s.params.get('nonce')
                if not s.cleared and n:
                    c.equal(ctx.state.get_state_by_nonce(n), s.state, 'nonce leads to another session')
                if not s.cleared and s.result is not None and s.result['id_token'] is not None:
                    c.equal(ctx.state.get_state_by_sid(s.grant['sid']), s.state, 'session ID leads to another session')
            # the subject leads to the session that was finalized last, if it is there still
            subs = collections.defaultdict(list)
            for s in mine:
                if s.result is not None and (s.result['id_token'] is not None or s.result['userinfo']):
                    subs[s.grant['sub']].append(s)
            for sub, ss in subs.items():
                try:
                    got = ctx.state.get_state_by_sub(sub)
                except KeyError:
                    got = None
                last = [s for s in ss if all(x is s or x.fin[0] < s.fin[1] for x in ss)]
                if got is None:
                    c.check(any(s.cleared for s in last), 'subject leads to no session though the last one is alive', sub)
                else:
                    c.check(got in [s.state for s in last if not s.cleared], 'subject leads to a session that is not the last one', sub)
                c.ev('subject entries judged')
        for rec in c.net.log:
            c.check(rec.status in (200, 201), 'a provider refused a request', lambda: '%s %s -> %s %s' % (
                rec.method, rec.url, rec.status, short(rec.resp and rec.resp[2])))
        proofs = collections.defaultdict(set)
        for rec in c.net.log:
            if 'dpop' in rec.headers:
                proofs[rec.netloc].add(json.dumps(jose.parts(rec.headers['dpop'])[0]['jwk'], sort_keys=True))
                c.ev('DPoP proofs seen')
        for host, ks in proofs.items():
            c.equal(len(ks), 1, 'one client proves possession of several keys', host)
        codes = collections.Counter(r.info['params'].get('code') for r in c.net.log
                                    if r.endpoint == 'token_endpoint' and r.info.get('params', {}).get('code'))
        c.check(all(v == 1 for v in codes.values()), 'a code was used twice', codes)

    def report(self, extra):
        c = self.c
        for k, v in self.counts.items():
            c.ev('operations: ' + k, v)
        for e in self.errors:
            raise e


def failing(w, k, err):
    import traceback
    if isinstance(err, Violation):
        w.errors.append(err)
    else:
        tb = traceback.extract_tb(err.__traceback__)
        at = [f for f in tb if f.filename.startswith(SRC)] or tb
        w.errors.append(Violation('operation failed with %s in a thread' % type(err).__name__,
                                  '%s at %s' % (short(str(err)), ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno)
                                                                           for f in reversed(at)))))


def join(c, ts, limit=60):
    end = time.monotonic() + limit
    for t in ts:
        t.join(max(.01, end - time.monotonic()))
    if any(t.is_alive() for t in ts):
        raise Violation('threads do not come to an end', [t.name for t in ts if t.is_alive()])


def f_sched(c, rng, i):
    profile = ['new', 'one', 'many', 'herd'][i % 4]
    w = World(c, rng, profile)
    n = rng.randint(2, 5)
    p, park = rng.choice([(.5, 0), (.2, 0), (.05, 0), (.01, 0), (.1, 60), (.03, 300), (.01, 2000)])
    s = Sched(rng, n, p, park)
    per = rng.choice([1, 2, 4, 8]) if profile == 'new' else rng.choice([3, 6, 10])

    def jitter(rec, phase):
        if rec.endpoint == 'jwks_uri' or rec.path.endswith('jwks.json'):
            return                      # fetched under a lock of the key bundle
        if getattr(s.local, 'k', None) is not None and rng.random() < .6:
            if s.cur == s.local.k:
                s.switch(s.local.k, ('net', phase))
    c.net.jitter = jitter
    rngs = [random.Random('%s/%s' % (rng.random(), k)) for k in range(n)]

    def work(k):
        s.enter(k)
        sys.settrace(s.tracer)
        try:
            for _ in range(per):
                w.step(rngs[k], k)
                if w.errors:
                    break
        except BaseException as err:
            failing(w, k, err)
        finally:
            sys.settrace(None)
            s.leave(k)
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    for t in ts:
        t.start()
    join(c, ts)
    c.net.jitter = None
    c.log('schedule', profile=profile, desc=w.desc, threads=n, p=s.p, switches=len(s.switches), steps=s.steps,
          first=s.switches[:30], counts=dict(w.counts))
    c.ev('library lines scheduled', s.steps)
    c.ev('thread switches at library lines', len(s.switches))
    c.ev('scheduler take-overs (blocked thread)', s.takeovers)
    c.ev('waits for locks of the library', s.lockwaits)
    w.report(None)
    w.final()
    sig = hashlib.blake2b(repr(s.switches).encode(), digest_size=8).hexdigest()
    c.seen('interleaving', sig)


def f_storm(c, rng, i):
    profile = ['new', 'many', 'one', 'herd'][i % 4]
    w = World(c, rng, profile)
    n = rng.randint(4, 12)
    per = rng.randint(2, 8)
    slow = rng.choice([0, .001, .004])
    order = []

    def jitter(rec, phase):
        order.append((rec.path, phase, rec.thread))
        x = random.random()
        if x < .5:
            time.sleep(0)
        elif slow:
            time.sleep(x * slow)
    c.net.jitter = jitter
    rngs = [random.Random('%s/%s' % (rng.random(), k)) for k in range(n)]
    bar = threading.Barrier(n)

    def work(k):
        try:
            bar.wait(30)
            for _ in range(per):
                w.step(rngs[k], k)
                if w.errors:
                    break
        except BaseException as err:
            failing(w, k, err)
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        join(c, ts)
    finally:
        sys.setswitchinterval(old)
    c.net.jitter = None
    c.log('storm', profile=profile, desc=w.desc, threads=n, counts=dict(w.counts))
    w.report(None)
    w.final()
    ids = {t: k for k, t in enumerate(dict.fromkeys(x[2] for x in order))}
    c.seen('traffic order', hashlib.blake2b(repr([(a, b, ids[t]) for a, b, t in order]).encode(), digest_size=8).hexdigest())


def f_store(c, rng, i):
    """The session store alone: short operations, so that narrow windows are met."""
    from oidcrp.state_interface import StateInterface
    st = StateInterface()
    n = rng.randint(2, 4)
    s = Sched(rng, n, *rng.choice([(.7, 0), (.3, 0), (.2, 30), (.1, 60), (.05, 100)]))
    iss = 'https://op.example.com'
    subs = ['sub%d' % k for k in range(rng.randint(1, 2))]
    tick = itertools.count()
    mix = rng.choice([(.5, .8), (.3, .7), (.25, .6)])
    ev, errors = [], []            # (kind, state, sub, start, end)
    live = {}
    per = rng.randint(3, 10)
    rngs = [random.Random('%s/%s' % (rng.random(), k)) for k in range(n)]

    def work(k):
        r = rngs[k]
        mine = {}
        s.enter(k)
        try:
            for m in range(per):
                x = r.random()
                sys.settrace(s.tracer)
                if not mine or x < .25:
                    a = st.create_state(iss)
                    mine[a] = {'iss': iss}
                    st.store_nonce2state('n' + a, a)
                    live[a] = mine[a]
                elif x < mix[0]:
                    a = r.choice(sorted(mine))
                    it = {'code': 'c%d.%d' % (k, m), 'state': a}
                    st.store_item(json.dumps(it), 'auth_response', a)
                    mine[a]['auth_response'] = it
                elif x < mix[1]:
                    a = r.choice(sorted(mine))
                    sub = r.choice(subs)
                    t = next(tick)
                    st.store_sub2state(sub, a)
                    ev.append(('store', a, sub, t, next(tick)))
                    mine[a]['_sub'] = mine[a].get('_sub', []) + [sub]
                    st.store_sid2state('sid' + a, a)
                else:
                    a = r.choice(sorted(mine))
                    t = next(tick)
                    st.remove_state(a)
                    ev.append(('clear', a, None, t, next(tick)))
                    del mine[a], live[a]
                    c.refused(lambda: st.get_state(a), 'removed session is still there', a)
                sys.settrace(None)
                for a, want in mine.items():
                    got = {k2: v for k2, v in W.plain(st.get_state(a)).items()}
                    if got != {k2: v for k2, v in want.items() if k2 != '_sub'}:
                        raise Violation('session changed by another thread', '%s != %s' % (got, want))
                    if st.get_state_by_nonce('n' + a) != a:
                        raise Violation('nonce leads to another session', a)
        except BaseException as err:
            sys.settrace(None)
            errors.append(err)
        finally:
            sys.settrace(None)
            s.leave(k)
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    for t in ts:
        t.start()
    join(c, ts)
    for e in errors:
        raise e
    c.log('schedule', switches=s.switches[:60], events=ev)
    c.equal(sorted(k for k in st._db if not is_index_key(k)), sorted(live), 'sessions in the store')
    cleared = {e[1]: e for e in ev if e[0] == 'clear'}
    for sub in subs:
        ss = [e for e in ev if e[0] == 'store' and e[2] == sub]
        last = [e for e in ss if all(x is e or x[3] < e[4] for x in ss)]
        try:
            got = st.get_state_by_sub(sub)
        except KeyError:
            got = None
        c.ev('subject entries judged')
        if got is None:
            c.check(not ss or any(e[1] in cleared for e in last), 'subject leads to no session though the last one is alive', sub)
        else:
            c.check(got in live, 'subject leads to a session that is gone', sub)
            c.check(got in [e[1] for e in last], 'subject leads to a session that is not the last one', sub)
    for a, want in live.items():
        c.equal(st.get_state_by_nonce('n' + a), a, 'nonce leads to another session')
        if want.get('_sub'):
            c.equal(st.get_state_by_sid('sid' + a), a, 'session ID leads to another session')
    for key, val in st._db.items():
        if is_index_key(key) and not key.startswith('ref'):
            c.check(val in live, 'index entry of a session that is gone', key)
    c.ev('library lines scheduled', s.steps)
    c.ev('thread switches at library lines', len(s.switches))
    c.ev('waits for locks of the library', s.lockwaits)
    c.seen('store interleaving', hashlib.blake2b(repr(s.switches).encode(), digest_size=8).hexdigest())


def run(r):
    r.rule = ('A case is a handler, its providers and a schedule of 2-12 threads beginning, finalizing, using and clearing '
              'sessions; distinct = distinct sequences of thread switches or of provider traffic.')
    r.assumptions = ['One session is handled by one thread at a time.',
                     'CPython: single byte codes and dict operations are atomic.']
    r.cases('store', 1500, f_store, thorough=60000, share=.5)
    r.cases('sched', 60, f_sched, thorough=6000, share=.65)
    r.cases('storm', 24, f_storm, thorough=1500)
