"""C09: token bookkeeping against a reference model under a virtual clock."""
import json
import os

import jose
import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

RULE = ('A case is a history of logins, refreshes, user info requests, questions and clock steps for several sessions at several '
        'providers whose policies (life times, rotation, ID Tokens on refresh, errors) change all the time. A reference '
        'model fed from what went over the wire predicts every answer. Non-trivial: a question whose answer the model '
        'predicted; distinct by (response type, question, shape of the tokens held, answer).')
ASSUMPTIONS = ['a token is expired from the second on that its life time ends',
               'tokens held are those of the authorization response, the code exchange and the latest refresh']

ISS = ['https://op.example.com', 'https://login.example.net:8443/x', 'https://third.example.org/']


class M:
    """What one session holds, from the wire."""

    def __init__(self):
        self.auth = self.token = self.refresh = None   # (access token, expiry or None)
        self.idts = []      # (jwt, exp) in order of receipt
        self.rts = []
        self.last_at = None

    def got(self, kind, resp):
        at = resp.get('access_token')
        if at:
            e = resp.get('expires_in')
            setattr(self, kind, (at, None if e is None else int(CLOCK.now) + int(e)))
            self.last_at = at
        if resp.get('id_token'):
            self.idts.append((resp['id_token'], jose.parts(resp['id_token'])[1]['exp']))
        if resp.get('refresh_token'):
            self.rts.append(resp['refresh_token'])

    def held(self):
        return [x for x in (self.auth, self.token, self.refresh) if x]

    def valid(self):
        """Acceptable answers to 'a valid access token'."""
        h = self.held()
        ind = [x for x in h if x[1] is None]
        if ind:
            return [(x[0], 0) for x in ind]
        h = [x for x in h if x[1] > CLOCK.now]
        m = max([x[1] for x in h], default=0)
        return [x for x in h if x[1] == m]

    def active(self):
        return bool(self.idts) and self.idts[-1][1] > CLOCK.now

    def shape(self):
        def f(x):
            return '-' if x is None else 'i' if x[1] is None else 'v' if x[1] > CLOCK.now else 'x'
        return f(self.auth) + f(self.token) + f(self.refresh)


class World:
    def __init__(self, c, rng, n):
        os.chdir(c.dir)
        self.c, self.rng, self.sess, self.ops, confs = c, rng, [], [], {}
        self.rt = {}
        for k, iss in enumerate(rng.sample(ISS, n)):
            o = opmod.OP(c.net, iss, k, tag='op%d' % k)
            rt = rng.choice(world.RT_ALL)
            kw = {}
            cnf, desc = world.gen_conf(rng, o, rt=rt, add_ons=world.pkce() if rng.random() < .2 else {}, **kw)
            self.rt[o] = rt
            self.ops.append(o)
            confs[iss] = cnf
            o.hook['token_endpoint'] = self.token_hook
        self.h = world.handler(confs)
        self.fail = None
        self.string_exp = False

    def token_hook(self, rec, res):
        if self.fail and rec.info.get('refresh'):
            return res[0] and {'error': self.errjson, 'status': self.err500, 'junk': self.junk}[self.fail]()
        d = json.loads(res[2])
        if self.string_exp and 'expires_in' in d:
            d['expires_in'] = str(d['expires_in'])
        return jresp(d, res[0])

    def errjson(self):
        return jresp({'error': 'invalid_grant'}, 400)

    def err500(self):
        return 500, {'Content-Type': 'text/html'}, '<html>oops</html>'

    def junk(self):
        return jresp({'token_type': 'Bearer'}, 200)

    def policy(self):
        r = self.rng
        for o in self.ops:
            o.expires_in = r.choice([None, 3600, 60, 5, 1, 600, 100000, 7, 0])
            o.with_refresh = r.random() < .85
            o.rotate_refresh = r.random() < .5
            o.idt_on_refresh = r.random() < .5
            o.idt_lifetime = r.choice([600, 60, 5, 3600, 100])
        self.string_exp = r.random() < .3
        self.fail = None

    def begin(self):
        o = self.rng.choice(self.ops)
        s = world.begin(self.c, self.h, o)
        s.m, s.stage = M(), 'begun'
        self.sess.append(s)
        return s

    def pick(self, *st):
        x = [s for s in self.sess if s.stage in st]
        return self.rng.choice(x) if x else None

    def wire(self, s, k, kind):
        """Feed the model with the successful token responses since k."""
        for rec in self.c.net.log[k:]:
            if rec.endpoint == 'token_endpoint' and rec.status == 200:
                s.m.got('refresh' if 'refresh' in rec.info else 'token', json.loads(rec.resp[2]))

    def finish(self):
        s = self.pick('begun')
        if not s:
            return
        self.policy()
        world.answer(self.c, s)
        s.m.got('auth', s.resp)
        k = len(self.c.net.log)
        fin = {}
        rt = set(self.rt[s.op].split())
        if {'code', 'token'} <= rt and self.rng.random() < .6:
            # a token response that brings no ID Token is legitimate here only if there is one already
            s.op.idt_at_token = 'id_token' not in rt or self.rng.random() < .5
            fin['behaviour_args'] = {'collect_tokens': True}
        world.finalize(self.c, self.h, s, **fin)
        self.wire(s, k, 'token')
        s.stage = 'done'
        if s.grant['idts']:
            self.c.check(s.result['id_token'] is not None and s.result['id_token']['sub'] == s.grant['sub'],
                         'ID Token accepted but not part of the result', lambda: str((rt, fin, s.result['id_token'])))
            if s.result['id_token'] is not None:
                # the one last received, the token endpoint may tell more about the user
                last = jose.parts(s.m.idts[-1][0])[1]
                self.c.equal(*[{k: d.get(k) for k in ('exp', 'iat', 'nonce', 'at_hash', 'c_hash')}
                               for d in (world.plain(s.result['id_token']), last)], 'ID Token of the result')
        if s.result['token']:
            self.c.equal(s.result['token'], s.m.last_at, 'token of the result')
        for r in self.c.net.log[k:]:
            if r.endpoint == 'userinfo_endpoint':
                self.c.equal(r.headers.get('authorization'), 'Bearer ' + s.m.last_at, 'token used for user info')
        self.ask(s)

    def refresh(self):
        s = self.pick('done')
        if not s:
            return
        c, m = self.c, s.m
        self.policy()
        k = len(c.net.log)
        if not m.rts:
            c.refused(lambda: self.h.refresh_access_token(s.state), 'refresh without refresh token')
            c.equal([r.url for r in c.net.log[k:] if r.status == 200], [], 'refresh request without refresh token')
            c.seen(self.rt[s.op], 'refresh', 'none')
            return self.ask(s)
        if self.rng.random() < .25:
            self.fail = self.rng.choice(['error', 'status', 'junk'])
            c.refused(lambda: self.h.refresh_access_token(s.state), 'failed refresh reported as success', self.fail)
            what = self.fail
            self.fail = None
        else:
            what = 'ok'
            scope = self.rng.choice(['', '', 'openid', ['openid', 'email']])
            t = self.h.refresh_access_token(s.state, scope=scope) if scope else self.h.refresh_access_token(s.state)
            d = json.loads([r for r in c.net.log if r.endpoint == 'token_endpoint'][-1].resp[2])
            c.equal(t['access_token'], d['access_token'], 'result of a refresh')
            if 'refresh_token' in d:
                c.equal(t['refresh_token'], d['refresh_token'], 'refresh token in the result of a refresh')
        recs = [r for r in c.net.log[k:] if r.endpoint == 'token_endpoint']
        c.equal(len(recs), 1, 'number of refresh requests')
        p = dict(recs[0].form())
        c.equal(p.get('refresh_token'), m.rts[-1], 'refresh token presented')
        c.equal(p.get('grant_type'), 'refresh_token', 'grant type of a refresh')
        if what == 'ok':
            if scope:
                c.equal(p.get('scope', ''), ' '.join([scope] if isinstance(scope, str) else scope), 'scope of a refresh')
            else:
                # nothing, or what was asked for in the beginning: anything else would change what the token is good for
                c.check(set(p.get('scope', '').split()) in (set(), set(s.req.get('scope', '').split())), 'scope of a refresh that asked for none',
                        p.get('scope'))
            self.wire(s, k, 'refresh')
        c.seen(self.rt[s.op], 'refresh', what, len(m.rts) > 1, s.op.rotate_refresh, s.op.idt_on_refresh)
        self.ask(s)

    def userinfo(self):
        s = self.pick('done')
        if not s or not s.m.last_at:
            return
        c = self.c
        k = len(c.net.log)
        tok = None
        held = s.grant['ats']
        if self.rng.random() < .3:
            tok = self.rng.choice(held)
        how = self.rng.choice(['handler', 'handler', 'service'])
        if how == 'service':        # the service itself, without the handler
            args = {'request_args': {'access_token': tok}} if tok else self.rng.choice([{}, {'request_args': {}}])
            ui = self.h.get_client_from_session_key(s.state).do_request('userinfo', state=s.state, **args)
        else:
            ui = self.h.get_user_info(s.state, access_token=tok) if tok else self.h.get_user_info(s.state)
        recs = [r for r in c.net.log[k:] if r.endpoint == 'userinfo_endpoint']
        c.equal(len(recs), 1, 'number of user info requests')
        c.equal(recs[0].headers.get('authorization'), 'Bearer ' + (tok or s.m.last_at), 'token used for user info',
                'given' if tok else 'default')
        c.equal(ui['sub'], s.grant['sub'], 'user info subject')
        c.seen(self.rt[s.op], 'userinfo', bool(tok), how, s.m.shape())
        self.ask(s)

    def ask(self, s):
        c, m = self.c, s.m
        want = m.valid()
        if want:
            got = tuple(self.h.get_valid_access_token(s.state))
            c.check(got in want, 'valid access token', lambda: 'got %r want one of %r at %s holding %r' % (
                got, want, CLOCK.now, m.held()))
        else:
            c.refused(lambda: self.h.get_valid_access_token(s.state), 'an access token is given although none is valid',
                      lambda: repr(m.held()))
        c.equal(bool(self.h.has_active_authentication(s.state)), m.active(), 'active authentication',
                'at %s with ID Tokens %s' % (CLOCK.now - 1_800_000_000, [x[1] - 1_800_000_000 for x in m.idts]))
        c.seen(self.rt[s.op], 'ask', m.shape(), bool(want), m.active(), len(m.idts))
        c.ev('questions predicted', 2)

    def ask_any(self):
        for s in self.rng.sample(self.sess, min(2, len(self.sess))):
            self.ask(s)

    def tick(self):
        """Mostly to just before, at or after an expiry."""
        edges = []
        for s in self.sess:
            edges += [x[1] for x in s.m.held() if x[1]] + [x[1] for x in s.m.idts]
        edges = [e + d for e in edges for d in (-1, 0, 1) if e + d > CLOCK.now]
        if edges and self.rng.random() < .75:
            CLOCK.now = float(self.rng.choice(sorted(edges)[:6]))
        else:
            CLOCK.advance(self.rng.choice([1, 1, 5, 30, 59, 300, 1000]))
        for s in self.sess:
            self.ask(s)

    def clear(self):
        s = self.pick('done')
        if s and self.rng.random() < .4:
            self.h.clear_session(s.state)
            s.stage = 'gone'
            self.sess.remove(s)
            for f in (self.h.get_valid_access_token, self.h.has_active_authentication, self.h.refresh_access_token,
                      self.h.get_user_info):
                self.c.refused(lambda: f(s.state), 'token operation for a removed session', f.__name__)
            self.c.seen('gone', s.m.shape())


def history(c, rng, i):
    w = World(c, rng, rng.randint(1, 3))
    w.policy()
    steps = [w.begin] * 2 + [w.finish] * 2 + [w.refresh] * 5 + [w.userinfo] * 2 + [w.tick] * 4 + [w.ask_any, w.clear]
    w.begin()
    w.finish()
    for _ in range(rng.choice([10, 20, 30])):
        rng.choice(steps)()
    while w.pick('begun'):
        w.finish()
    for _ in range(4):
        w.refresh()
        w.tick()


def oauth2(c, rng, i):
    """The same for plain OAuth2 clients (no ID Token)."""
    os.chdir(c.dir)
    o = opmod.OP(c.net, ISS[0], 0)
    o.idt_at_token = False
    cnf = world.static_conf(o, scope=['read'], svc=world.OAUTH2_SERVICES, auth=rng.choice(world.AUTHS[:2]),
                            client_type='oauth2')
    h = world.handler({o.issuer: cnf})
    w = World.__new__(World)
    w.c, w.rng, w.sess, w.ops, w.rt, w.h, w.fail, w.string_exp = c, rng, [], [o], {o: 'oauth2'}, h, None, False
    o.hook['token_endpoint'] = w.token_hook
    real = w.policy

    def policy():
        real()
        o.idt_on_refresh = False
    w.policy = policy
    steps = [w.begin, w.finish] + [w.refresh] * 4 + [w.tick] * 3 + [w.ask_any, w.clear]
    w.begin()
    w.finish()
    for _ in range(12):
        rng.choice(steps)()


def run(r):
    r.cases('history', 260, history, thorough=12000)
    r.cases('oauth2', 60, oauth2, thorough=3000)
