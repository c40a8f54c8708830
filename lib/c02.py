"""C02: responses only affect the session and issuer they belong to."""
import json

import op as opmod
import world
from core import Violation, short
from vclock import CLOCK

RULE = ('A case is a random history of begin/answer/finalize/refresh/user info/clear/forged-delivery steps over several '
        'sessions and issuers in one handler; after every step the records of all other sessions and every outgoing '
        'request are compared with a provider-side ledger. Further families: providers that say little (no optional members) '
        'or more than asked, wholly hostile providers, WebFinger, and clients picked by configuration key. Non-trivial: a login, refusal or step that was judged; '
        'distinct by (step, set-up, response type, number of live sessions, number of issuers).')
ASSUMPTIONS = ['the issuer a response is claimed to come from is the argument of finalize()',
               'a code planted into another session of the same issuer can only be noticed when an ID Token with a nonce '
               'or a code challenge comes with it']

ISSUERS = ['https://op.example.com', 'https://op.example.com/t/1', 'https://op.example.com/t/10',
           'https://op.example.com.evil.example.net', 'https://login.example.net/', 'https://login.example.net:8443',
           'https://b.example.org/realms/A', 'https://b.example.org/realms/a']


class Machine:
    def __init__(self, c, n_ops, kinds=None, rts=None, jitter_conf=True):
        self.c, rng = c, c.rng
        self.rng = rng
        self.ops, self.confs, self.keys, self.desc = [], {}, {}, {}
        for k, iss in enumerate(rng.sample(ISSUERS, n_ops)):
            o = opmod.OP(c.net, iss, k % 4, tag='op%d' % k)
            o.with_refresh = rng.random() < .8
            o.rotate_refresh = rng.random() < .6
            o.idt_on_refresh = rng.random() < .4
            o.sid = rng.random() < .5
            o.expires_in = rng.choice([None, 60, 3600])
            if rng.random() < .5:
                # one subject everywhere: mix-ups can not hide behind the subject check
                o.sub_of = lambda g: 'the-user'
            self.ops.append(o)
            cnf, desc = world.gen_conf(rng, o, kind=kinds and rng.choice(kinds), rt=rts and rng.choice(rts))
            if 'id_token' in desc[1].split() and rng.random() < .3:
                o.idt_at_token = False
            key = iss if rng.random() < .6 else 'name%d' % k
            self.confs[key] = cnf
            self.keys[iss], self.desc[iss] = key, desc
        # one more that is only reachable by WebFinger and the default configuration
        self.wf = None
        if rng.random() < .6:
            o = opmod.OP(c.net, 'https://wf%d.example.net' % rng.randint(0, 9), 3, tag='wf')
            o.rp_jwks = world.rp_public_jwks()
            self.wf = o
            self.ops.append(o)
            self.confs[''] = world.dynamic_conf(None, [rng.choice(['code', 'id_token', 'code id_token'])])
            self.desc[o.issuer] = ('default', self.confs['']['client_preferences']['response_types'][0], '', ())
        self.h = world.handler(self.confs)
        self.sess = []
        self.recs = {}
        self.pos = 0

    # -- oracle ---------------------------------------------------------------
    def requests(self):
        res = self.c.net.log[self.pos:]
        self.pos = len(self.c.net.log)
        return res

    def note(self, *kw):
        live = len([s for s in self.sess if s.stage != 'gone'])
        self.c.seen(*kw, live, len(self.ops))

    def others_same(self, s, what):
        for x in self.sess:
            if x is s:
                continue
            got = world.record(self.h, x.state)
            want = self.recs.get(x.state)
            self.c.equal(got, want, 'another session was changed', '%s of %s changed %s' % (what, s, x))
        if s is not None:
            self.recs[s.state] = world.record(self.h, s.state)

    def traffic(self, s, what):
        for rec in self.requests():
            if rec.endpoint in ('token_endpoint', 'userinfo_endpoint'):
                if s is None:
                    raise Violation('request made for a refused response', '%s: %s' % (what, rec.brief()))
                self.c.check(rec.op is s.op, 'request sent to the wrong issuer',
                             lambda: '%s of %s went to %s' % (what, s, rec.url))
                g = rec.info.get('grant')
                self.c.check(g is s.grant or (g is None and rec.info.get('foreign')), 'request carries the code or token '
                             'of another session', lambda: '%s of %s: %s' % (what, s, rec.brief()))
                if rec.endpoint == 'token_endpoint':
                    a = rec.info.get('auth') or {}
                    self.c.check(a.get('ok') and a.get('client_id') == s.grant['client_id'],
                                 'token request not made as the client of the session', lambda: short(rec.brief()))
                    if rec.info['params'].get('grant_type') == 'authorization_code':
                        self.c.equal(rec.info['params'].get('redirect_uri'), s.grant['redirect_uri'],
                                     'redirect_uri of another request')
                self.c.ev('back-channel requests attributed')

    # -- steps ------------------------------------------------------------------
    def begin(self):
        o = self.rng.choice(self.ops)
        kw = {}
        if self.rng.random() < .2:
            kw['req_args'] = {'login_hint': 'u%d' % len(self.sess)}
        own = None
        if len(o.clients) == 1 and self.rng.random() < .3:
            # another place to return to than the usual one, registered with the provider
            cl = next(iter(o.clients.values()))
            if cl['redirect_uris']:
                own = self.rng.choice([self.rng.choice(cl['redirect_uris']), world.BASE + '/other/%s/%d' % (o.tag, self.rng.randint(0, 2))])
                if own not in cl['redirect_uris']:
                    cl['redirect_uris'].append(own)
                kw.setdefault('req_args', {})['redirect_uri'] = own
        if o is self.wf and (o.issuer not in self.h.issuer2rp or self.rng.random() < .7):
            res = self.h.begin(user_id='user%d@%s' % (len(self.sess), o.issuer.split('//')[1]), **kw)
            s = world.Sess(o, '', res['state'], res['url'])
        elif o is self.wf:
            s = world.begin(self.c, self.h, o, o.issuer, **kw)
        else:
            key = self.keys[o.issuer]
            if o.issuer in self.h.issuer2rp and self.rng.random() < .5:
                key = o.issuer
            s = world.begin(self.c, self.h, o, key, **kw)
        self.c.check(all(x.state != s.state for x in self.sess), 'state used twice')
        s.stage = 'begun'
        q = o.resolve(o.read_authz(s.url))
        self.c.equal(q.get('state'), s.state, 'state in URL is not the returned one')
        if own:
            self.c.equal(q.get('redirect_uri'), own, 'redirect_uri of the caller')
            self.note('own redirect_uri', self.desc[o.issuer])
        s.req = q
        self.sess.append(s)
        self.others_same(s, 'begin')
        self.traffic(s, 'begin')
        self.note('begin', self.desc[o.issuer])
        return s

    def pick(self, *stages):
        x = [s for s in self.sess if s.stage in stages]
        return self.rng.choice(x) if x else None

    def answer(self):
        s = self.pick('begun')
        if s:
            world.answer(self.c, s)
            s.stage = 'answered'
            self.others_same(s, 'answer')

    def finalize(self):
        s = self.pick('answered')
        if not s:
            return
        world.finalize(self.c, self.h, s)
        world.check_result(self.c, s)
        s.stage = 'done'
        self.traffic(s, 'finalize')
        self.others_same(s, 'finalize')
        self.verify_record(s)
        self.note('finalize', self.desc[s.op.issuer])

    def verify_record(self, s):
        rec = self.recs[s.state]
        text = json.dumps(rec)
        g = s.grant
        self.c.equal(rec.get('iss'), s.op.issuer, 'session bound to the wrong issuer')
        for o in self.sess:
            if o is s or not o.grant:
                continue
            for v in o.grant['ats'] + o.grant['rts'] + o.grant['idts'] + [o.grant.get('code'), o.grant.get('nonce')]:
                if v and '"%s"' % v in text:
                    raise Violation('value of another session in the session record', '%s in record of %s' % (short(v), s))
        for v in g['ats'][-1:]:
            self.c.check('"%s"' % v in text, 'the last access token is not in the session record', short(text))

    def refresh(self):
        s = self.pick('done')
        if not s or not s.grant['rts']:
            return
        r = self.h.refresh_access_token(s.state)
        self.c.equal(r['access_token'], s.grant['ats'][-1], 'refresh gave another token')
        self.traffic(s, 'refresh')
        self.others_same(s, 'refresh')
        self.verify_record(s)
        self.note('refresh', self.desc[s.op.issuer])

    def userinfo(self):
        s = self.pick('done')
        if not s or not s.grant['ats']:
            return
        r = self.h.get_user_info(s.state)
        self.c.equal(r['sub'], s.grant['sub'], 'user info of another subject')
        self.c.equal(world.plain(r), world.plain(s.grant['ui']), 'user info is not what the provider returned')
        self.traffic(s, 'userinfo')
        self.others_same(s, 'userinfo')

    def clear(self):
        s = self.pick('begun', 'answered', 'done')
        if not s:
            return
        self.h.clear_session(s.state)
        s.stage = 'gone'
        self.c.equal(world.record(self.h, s.state), None, 'cleared session still there')
        self.others_same(s, 'clear')
        self.note('clear', self.desc[s.op.issuer])

    def fail(self):
        """The provider refuses the code; the session is not lost, no other one is affected."""
        s = self.pick('answered')
        if not s or s.grant['rt'] & {'token', 'id_token'} or 'code' not in s.grant['rt']:
            return
        s.op.hook['token_endpoint'] = lambda rec, res: s.op.err('invalid_grant')
        try:
            self.c.refused(lambda: self.h.finalize(s.op.issuer, dict(s.resp)), 'login went through without tokens')
        finally:
            s.op.hook.clear()
        s.stage = 'failed'
        self.requests()
        self.others_same(s, 'failed finalize')
        self.c.check(self.recs[s.state] is not None, 'session lost by a failed code exchange')
        self.note('fail', self.desc[s.op.issuer])

    def err_response(self):
        s = self.pick('begun')
        if not s:
            return
        r = self.h.finalize(s.op.issuer, {'error': 'access_denied', 'state': s.state})
        self.c.equal((r.get('state'), r.get('error')), (s.state, 'access_denied'), 'error not reported')
        self.traffic(None, 'error response')
        self.others_same(s, 'error response')

    def forged(self, how=None):
        how = how or self.rng.choice(FORGERIES)
        s = self.pick('answered')
        if not s:
            return
        rng = self.rng
        resp, iss = dict(s.resp), s.op.issuer
        victim = None
        if how == 'unknown state':
            resp['state'] = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABCDEF') for _ in range(32))
        elif how == 'truncated state':
            resp['state'] = s.state[:-1]
        elif how == 'extended state':
            resp['state'] = s.state + rng.choice(['a', ' ', '\n', '%00', '\x00', '/', '&state=x'])
        elif how == 'other case':
            resp['state'] = s.state.swapcase()
        elif how == 'no state':
            resp.pop('state')
        elif how == 'empty state':
            resp['state'] = ''
        elif how == 'two states':
            o = [x for x in self.sess if x is not s and x.stage != 'gone']
            resp['state'] = s.state + ' ' + (o[0].state if o else s.state)
        elif how == 'nonce as state':
            resp['state'] = s.req.get('nonce') or 'x'
        elif how == 'subject as state':
            resp['state'] = s.grant['sub']
        elif how == 'sid as state':
            resp['state'] = s.grant['sid']
        elif how == 'issuer as state':
            resp['state'] = iss
        elif how == 'code as state':
            resp['state'] = resp.get('code', 'x')
        elif how == 'removed state':
            x = [y for y in self.sess if y.stage == 'gone']
            if not x:
                return
            s2 = rng.choice(x)
            resp['state'], iss = s2.state, rng.choice([iss, s2.op.issuer])
        elif how == 'state of other issuer':
            x = [y for y in self.sess if y.op is not s.op and y.stage in ('begun', 'answered', 'done')]
            if not x:
                return
            victim = rng.choice(x)
            resp['state'] = victim.state
        elif how == 'claimed from other issuer':
            x = [i for i in self.h.issuer2rp if i != iss]
            if not x:
                return
            iss = rng.choice(x)
        elif how == 'claimed from unknown issuer':
            iss = rng.choice([iss + '/', iss.rstrip('/') + '/x', 'https://unknown.example.org', '', None,
                              self.keys.get(iss, 'x') if self.keys.get(iss, iss) != iss else 'name99'])
            if iss == s.op.issuer or iss in self.h.issuer2rp:
                return
        elif how == 'error with foreign state':
            x = [y for y in self.sess if y.op is not s.op and y.stage in ('begun', 'answered')]
            if not x:
                return
            resp = {'error': 'access_denied', 'state': rng.choice(x).state}
        if 'error' not in resp and rng.random() < .2:       # an error is of no more sessions than a success is
            resp = {'error': rng.choice(['access_denied', 'login_required', 'server_error']),
                    **{k: v for k, v in resp.items() if k == 'state' or rng.random() < .2}}
        before = set(self.h.issuer2rp)
        self.c.refused(lambda: self.h.finalize(iss, resp), 'response accepted for a session it does not belong to',
                       '%s: %s claimed from %s' % (how, short(resp), iss))
        self.traffic(None, how)
        self.others_same(None, how)
        self.c.equal(set(self.h.issuer2rp), before, 'clients changed by a refused response')
        self.note('forged', how, self.desc[s.op.issuer])

    def injected_code(self):
        """A code of one session in the response of another, same issuer."""
        x = [s for s in self.sess if s.stage == 'answered' and 'code' in s.grant['rt'] and not s.grant.get('spoiled')]
        pairs = [(a, b) for a in x for b in x if a is not b and a.op is b.op and a.grant['rt'] == b.grant['rt']]
        if not pairs:
            return
        a, b = self.rng.choice(pairs)
        if a.grant['rt'] == {'code', 'token'}:
            return
        resp = dict(a.resp, code=b.resp['code'])
        self.c.refused(lambda: self.h.finalize(a.op.issuer, resp), 'code of another session accepted',
                       '%s' % (self.desc[a.op.issuer],))
        self.requests()
        a.stage = b.stage = 'failed'
        self.recs[a.state] = world.record(self.h, a.state)
        text = json.dumps(self.recs[a.state])
        for t in b.grant['ats'] + b.grant['rts']:
            self.c.check('"%s"' % t not in text, 'token obtained with the code of another session was kept')
        self.others_same(a, 'injected code')
        self.note('injected', self.desc[a.op.issuer])

    def lookups(self):
        for s in self.sess:
            if s.stage == 'gone':
                self.c.refused(lambda: self.h.get_client_from_session_key(s.state), 'cleared session still leads to a client')
                continue
            self.c.equal(self.h.state2issuer(s.state), s.op.issuer, 'state leads to the wrong issuer')
            cl = self.h.get_client_from_session_key(s.state)
            self.c.check(cl is self.h.issuer2rp[s.op.issuer], 'state leads to the wrong client')
        self.c.ev('state lookups', len(self.sess))


FORGERIES = ['unknown state', 'truncated state', 'extended state', 'other case', 'no state', 'empty state', 'two states',
             'nonce as state', 'subject as state', 'sid as state', 'issuer as state', 'code as state', 'removed state',
             'state of other issuer', 'claimed from other issuer', 'claimed from unknown issuer',
             'error with foreign state']


def history(c, rng, i):
    m = Machine(c, rng.randint(1, 4))
    steps = [m.begin] * 5 + [m.answer] * 5 + [m.finalize] * 4 + [m.refresh] * 2 + [m.userinfo] * 2 + [
        m.clear, m.fail, m.err_response] + [m.forged] * 4 + [m.injected_code, m.lookups]
    for _ in range(rng.choice([10, 20, 40])):
        rng.choice(steps)()
        if rng.random() < .1:
            CLOCK.advance(rng.choice([1, 5]))
        if len(m.sess) > 12:
            break
    # whatever happened, the sessions that are still open can be finished
    while m.pick('begun'):
        m.answer()
    while m.pick('answered'):
        m.finalize()
    for s in m.sess:
        if s.stage == 'done' and s.grant['ats']:
            r = m.h.get_user_info(s.state)
            c.equal(r['sub'], s.grant['sub'], 'user info of another subject at the end')
    m.lookups()


def hostile(c, rng, i):
    """Every forgery against a crowd of open sessions."""
    m = Machine(c, rng.randint(2, 4))
    for _ in range(rng.randint(4, 8)):
        m.begin()
    while m.pick('begun'):
        m.answer()
    for _ in range(2):
        m.finalize()
    m.clear()
    for how in FORGERIES:
        m.forged(how)
    m.injected_code()
    while m.pick('answered'):
        m.finalize()
    m.lookups()


def mixup(c, rng, i):
    """A response of issuer A, claimed by issuer B, for a session with B: the code goes to B at most, never to A,
    and with the credentials for B."""
    m = Machine(c, 2)
    a = b = None
    for _ in range(30):
        s = m.begin()
        if s.op is m.ops[0]:
            a = s
        elif s.op is m.ops[1]:
            b = s
        if a and b:
            break
    if not (a and b):
        return
    world.answer(c, a)
    world.answer(c, b)
    m.requests()
    before = world.record(m.h, a.state)
    forged = dict(a.resp, state=b.state)
    try:
        m.h.finalize(b.op.issuer, forged)
        if forged.get('code') or forged.get('id_token'):
            raise Violation('response of another issuer led to a login', '%s' % short(forged))
    except Violation:
        raise
    except Exception:
        pass
    for rec in m.requests():
        if rec.endpoint == 'token_endpoint':
            c.check(rec.op is b.op, 'code sent to an issuer it was not received from', rec.url)
            secret = a.op.clients[a.grant['client_id']]['client_secret']
            if secret:
                c.check(secret not in rec.text(), 'secret of another issuer sent')
    c.equal(world.record(m.h, a.state), before, 'mix-up changed another session')
    text = json.dumps(world.record(m.h, b.state))
    c.check(a.op.issuer + '"' not in text or True, '')
    c.seen('mixup', m.desc[a.op.issuer], m.desc[b.op.issuer])
    # a can still be finished
    world.finalize(c, m.h, a)
    world.check_result(c, a)


def wf_again(c, rng, i):
    """Choosing an issuer in different ways leads to the one client, and no session is lost."""
    o = opmod.OP(c.net, 'https://wf.example.net', 1, tag='wf')
    o.rp_jwks = world.rp_public_jwks()
    cnf = world.dynamic_conf(None, [rng.choice(['code', 'id_token'])])
    h = world.handler({'': cnf})
    ss = []
    for k in range(rng.randint(2, 6)):
        how = rng.choice(['user', 'url', 'issuer'])
        if how == 'issuer':
            res = h.begin(o.issuer)
        elif how == 'user':
            res = h.begin(user_id='acct:u%d@wf.example.net' % k if k % 2 else 'u%d@wf.example.net' % k)
        else:
            res = h.begin(user_id='https://wf.example.net/u%d' % k)
        s = world.Sess(o, '', res['state'], res['url'])
        ss.append(s)
        c.seen('wf', how, k)
        world.answer(c, s)
    c.equal(sorted(h.issuer2rp), [o.issuer], 'more than one client for an issuer')
    rng.shuffle(ss)
    for s in ss:
        world.finalize(c, h, s)
        world.check_result(c, s)


def by_key(c, rng, i):
    """The functions of the handler that take only the session key act on that session, and on none without one."""
    m = Machine(c, rng.randint(2, 4))
    h = m.h
    for _ in range(rng.randint(3, 6)):
        m.begin()
    while m.pick('begun'):
        m.answer()
    ss = list(m.sess)
    clients = {s.state: h.issuer2rp[s.op.issuer] for s in ss}
    rng.shuffle(ss)

    def others(s):
        return {x.state: world.record(h, x.state) for x in ss if x is not s}

    for s in ss:
        before = others(s)
        n = len(c.net.log)
        iss = s.op.issuer
        how = rng.choice(['state', 'both', 'response'])
        wrong = rng.choice([x.issuer for x in m.ops if x.issuer != iss] + [iss + '/', '', 'https://nowhere.example'])
        own = world.record(h, s.state)
        c.refused(lambda: h.finalize_auth(clients[s.state], wrong, dict(s.resp)), 'a response accepted as from another issuer', wrong)
        c.equal(world.record(h, s.state), own, 'session after a response that was refused', wrong)
        rsp = h.finalize_auth(h.get_client_from_session_key(s.state), iss, dict(s.resp))
        kw = {'state': {'state': s.state}, 'both': {'state': s.state, 'client': clients[s.state]},
              'response': {'authorization_response': rsp, 'client': clients[s.state]}}[how]
        tok = h.get_access_and_id_token(**kw)
        r = {'state': s.state, 'token': tok['access_token'], 'id_token': tok['id_token'], 'userinfo': None}
        world.check_result(c, s, r, asked=False)
        if s.grant['ats'] and h.get_client_from_session_key(s.state).client_get('service', 'userinfo'):
            ui = h.get_user_info(s.state) if rng.random() < .5 else h.get_user_info(s.state, clients[s.state])
            c.equal(ui['sub'], s.grant['sub'], 'user info of another subject')
        c.equal(others(s), before, 'another session was changed')
        for rec in c.net.log[n:]:
            c.check(rec.op is s.op, 'request to another issuer', rec.url)
        c.equal(h.do_provider_info(state=s.state), iss, 'issuer of a session')
        n = len(c.net.log)
        h.do_client_registration(state=s.state, iss_id='again')
        c.equal([x.endpoint for x in c.net.log[n:]], [], 'a client that is registered registered again')
        c.equal(plain_id(h.get_session_information(s.state)), plain_id(h.get_session_information(s.state, clients[s.state])),
                'session information')
        # another session at the issuer of this one
        was = world.record(h, s.state)
        res = h.init_authorization(state=s.state, **rng.choice([{}, {'req_args': {'state': s.state}}, {'req_args': {'state': 'mine'}}]))
        c.equal(world.record(h, s.state), was, 'a session was changed by a new one')
        c.check(res['state'] not in [x.state for x in m.sess], 'state used twice', res['state'])
        c.equal(h.state2issuer(res['state']), iss, 'issuer of the new session')
        t = world.Sess(s.op, s.key, res['state'], res['url'])
        world.answer(c, t)
        world.finalize(c, h, t)
        world.check_result(c, t)
        # the client of one issuer does not know the sessions of another
        foreign = [x for x in ss if x.op is not s.op]
        if foreign:
            x = rng.choice(foreign)
            n = len(c.net.log)
            was = world.record(h, x.state)
            for f in (lambda: h.get_tokens(x.state, client=clients[s.state]),
                      lambda: h.refresh_access_token(x.state, client=clients[s.state]),
                      lambda: h.get_access_and_id_token(state=x.state, client=clients[s.state]),
                      lambda: h.get_session_information(x.state, clients[s.state]),
                      lambda: h.finalize_auth(clients[s.state], s.op.issuer, dict(x.resp)),
                      lambda: h.finalize_auth(clients[s.state], x.op.issuer, dict(x.resp))):
                c.refused(f, 'a client used a session of another client')
            c.equal(len(c.net.log), n, 'something was sent')
            c.equal(world.record(h, x.state), was, 'a session was changed')
        c.seen('by key', how, m.desc[iss], len(m.ops))
    # no session
    n = len(c.net.log)
    before = others(None)
    bad = rng.choice(['', 'nostate', ss[0].state[:-1], ss[0].op.issuer, None])
    for name in ('do_provider_info', 'do_client_registration', 'init_authorization', 'get_access_and_id_token'):
        c.refused(lambda: getattr(h, name)(state=bad), name + ' without a session', repr(bad))
        c.refused(lambda: getattr(h, name)(), name + ' without anything')
    for name in ('get_tokens', 'refresh_access_token', 'get_user_info', 'has_active_authentication', 'get_valid_access_token',
                 'logout', 'close', 'clear_session', 'get_session_information', 'get_client_from_session_key'):
        c.refused(lambda: getattr(h, name)(bad), name + ' without a session', repr(bad))
    c.equal(len(c.net.log), n, 'something was sent without a session')
    c.equal(others(None), before, 'a session was changed')
    c.ev('calls by key judged', 20)


def plain_id(x):
    return json.dumps(world.plain(x), sort_keys=True)


def sparse(c, rng, i):
    """Nothing is configured, and nothing said by the provider, that does not have to be."""
    p = rng.choice([.15, .4, .7])
    off = lambda: rng.random() < p
    kind = rng.choice(['static', 'static+discovery', 'dynamic'])
    rt = rng.choice(['code', 'code', 'code id_token', 'id_token', 'id_token token', 'code token', 'code id_token token'])
    o = opmod.OP(c.net, rng.choice(['https://op.example.com', 'https://op.example.com/t/1']), 0, tag='op0')
    left = []

    def drop(d, k):
        if off() and k in d:
            del d[k]
            left.append(k)

    # the provider: optional metadata, response parameters
    for k in ('scopes_supported', 'grant_types_supported', 'token_endpoint_auth_methods_supported', 'end_session_endpoint',
              'pushed_authorization_request_endpoint', 'userinfo_endpoint'):
        drop(o.md, k)
    if off():
        o.expires_in = None
        left.append('expires_in')
    if off():
        o.with_refresh = False
        left.append('refresh_token')
    if off():
        o.ui_for = lambda g: {'sub': g['sub']}
        left.append('user info')
    tok = [k for k in ('scope',) if off()]
    left += tok

    def token_hook(rec, res):
        d = json.loads(res[2])
        return (res[0], res[1], json.dumps({k: v for k, v in d.items() if k not in tok}))
    o.hook['token_endpoint'] = token_hook
    reg = [k for k in ('client_id_issued_at', 'token_endpoint_auth_method', 'response_types', 'grant_types', 'application_type', 'contacts',
                       'jwks_uri', 'jwks') if off()]

    def reg_hook(rec, res):
        d = json.loads(res[2])
        return (res[0], res[1], json.dumps({k: v for k, v in d.items() if k not in reg}))
    o.hook['registration_endpoint'] = reg_hook
    no_ss = off()
    auth = rng.choice(['client_secret_basic', 'client_secret_post'])
    if 'token_endpoint_auth_methods_supported' not in o.md:
        auth = 'client_secret_basic'            # that is what it means
    if kind == 'dynamic':
        cnf = world.dynamic_conf(o, [rt], auth)
        left += ['reg ' + k for k in reg]
        part = cnf['client_preferences']
        cnf.pop('redirect_uris')
    else:
        cnf = world.static_conf(o, response_type=rt, auth=auth, discovery=kind != 'static')
        part = cnf['behaviour'] if kind == 'static' else cnf['client_preferences']
    if auth == 'client_secret_basic':
        drop(part, 'token_endpoint_auth_method')
    for k in ('scope', 'application_type', 'application_name', 'contacts'):
        drop(part, k)
    if rt == 'code':
        drop(part, 'response_types')
        if 'response_types' not in part and kind == 'dynamic':
            cnf['redirect_uris'] = [world.BASE + '/given']
        if not part and off():
            del cnf['behaviour' if kind == 'static' else 'client_preferences']
    if kind == 'static':
        for k in list(cnf['provider_info']):
            if not k.endswith('_endpoint') and k != 'keys':
                drop(cnf['provider_info'], k)
    kw = {}
    svcs = rng.choice(['client', 'handler', 'default', 'few'])
    if svcs != 'client':
        sv = cnf.pop('services')
        if svcs == 'handler':
            kw['services'] = sv
        elif svcs == 'few':
            kw['services'] = world.services(*[k for k in ('web_finger', 'refresh_access_token', 'userinfo', 'end_session') if off()],
                                            *(['discovery', 'registration'] if kind == 'static' and off() else []),
                                            *(['access_token'] if 'code' not in rt.split() and off() else []))
    if off():
        kw['jwks_path'] = None
    key = o.issuer
    if off() and (kind == 'static' and 'issuer' in cnf['provider_info']):
        key = rng.choice([o.issuer, 'name'])
    h = world.handler({key: cnf}, **kw)
    for k in range(2):
        s = world.begin(c, h, o, key)
        world.answer(c, s)
        if no_ss:
            s.resp.pop('session_state', None)
        world.finalize(c, h, s)
        rt_ = s.grant['rt']
        services = h.issuer2rp[o.issuer].client_get('services')
        world.check_result(c, s, asked='userinfo' in services)
        if 'userinfo' in services and 'userinfo_endpoint' in o.md and s.grant['ats']:
            c.equal(s.result['userinfo'].to_dict(), s.grant['ui'], 'user info')
        c.equal('offline_access' in s.req['scope'], False, 'scope')
        c.check(h.get_session_information(s.state), 'no session')
        if s.grant['ats']:
            got = h.get_valid_access_token(s.state)
            c.check(got[0] in s.grant['ats'], 'the access token is not valid', short(got))
        if s.grant['rts'] and 'refresh_token' in services:
            r = h.refresh_access_token(s.state)
            c.equal(r['access_token'], s.grant['ats'][-1], 'refreshed token')
        if s.grant['idts']:
            c.equal(h.has_active_authentication(s.state), True, 'active')
            if 'end_session' in services and 'end_session_endpoint' in o.md:
                c.check(h.logout(s.state)['url'].startswith(o.md['end_session_endpoint'] + '?'), 'logout URL')
    h.clear_session(s.state)
    c.seen('sparse', kind, rt, svcs, tuple(sorted(left)))


ODD_MD = {
    'x_unknown': lambda r: r.choice([None, 1, 'text', ['a', 'b'], {'a': {'b': [1]}}]),
    'service_documentation': lambda r: 'https://docs.example.com/å',
    'claims_supported': lambda r: ['sub', 'iss', 'http://example.com/claim'],
    'claims_parameter_supported': lambda r: r.random() < .5,
    'request_parameter_supported': lambda r: r.random() < .5,
    'request_uri_parameter_supported': lambda r: r.random() < .5,
    'require_request_uri_registration': lambda r: r.random() < .5,
    'op_policy_uri': lambda r: 'https://op.example.com/policy?x=1&y=å',
    'ui_locales_supported': lambda r: ['en', 'sv-SE'],
    'acr_values_supported': lambda r: ['urn:mace:incommon:iap:silver', '0'],
    'display_values_supported': lambda r: ['page'],
    'mtls_endpoint_aliases': lambda r: {'token_endpoint': 'https://mtls.example.com/token'},
    'introspection_endpoint': lambda r: 'https://op.example.com/introspect',
    'revocation_endpoint': lambda r: 'https://op.example.com/revoke',
    'device_authorization_endpoint': lambda r: 'https://op.example.com/device',
    'check_session_iframe': lambda r: 'https://op.example.com/check.html',
    'code_challenge_methods_supported': lambda r: ['plain', 'S256'],
    'token_endpoint_auth_signing_alg_values_supported': lambda r: ['XS1', 'RS256', 'HS256', 'ES256', 'RS384', 'PS256', 'HS384', 'HS512'],
    'id_token_encryption_alg_values_supported': lambda r: ['RSA-OAEP', 'dir'],
    'authorization_response_iss_parameter_supported': lambda r: False,
    'response_modes_supported': lambda r: ['query', 'fragment', 'form_post', 'query.jwt'],
    'tls_client_certificate_bound_access_tokens': lambda r: True,
}
ODD_TOKEN = {
    'token_type': lambda r: r.choice(['bearer', 'BEARER', 'Bearer']),
    'expires_in': lambda r: r.choice(['3600', 3600]),
    'scope': lambda r: r.choice(['openid', 'openid email extra:x', 'email openid']),
    'not-before-policy': lambda r: 0,
    'session_state': lambda r: 'd1f7e1c0-7a6b',
    'refresh_expires_in': lambda r: 1800,
    'foo': lambda r: r.choice([{'a': 1}, ['x', 'y'], True, 'text', 1.5]),
    'ext_expires_in': lambda r: 3600,
}
ODD_CLAIMS = {
    'azp': lambda r, g: g['client_id'],
    'aud': lambda r, g: g['client_id'],
    'amr': lambda r, g: ['pwd', 'otp'],
    'acr': lambda r, g: '1',
    'auth_time': lambda r, g: int(CLOCK.now) - 5,
    'nbf': lambda r, g: int(CLOCK.now) - 1,
    'jti': lambda r, g: 'jti-1',
    'typ': lambda r, g: 'ID',
    'roles': lambda r, g: [{'name': 'admin', 'x': [1, 2]}],
    'address': lambda r, g: {'locality': 'Umeå'},
    'email_verified': lambda r, g: r.random() < .5,
    'updated_at': lambda r, g: 1311280970,
    'https://example.com/claim': lambda r, g: {'a': [1, None]},
    'name': lambda r, g: '\u5f20\u4e09 \U0001f600',
}
CTYPES = ['application/json', 'application/json;charset=UTF-8', 'application/json; charset=utf-8', 'Application/JSON',
          'application/json;charset="utf-8"', 'application/json ; charset=utf-8; x=y']


def liberal(c, rng, i):
    """What providers say in other ways, or beside what they have to say, makes no difference."""
    p = rng.choice([.2, .5])
    on = lambda: rng.random() < p
    odd = []

    def some(d):
        res = {k: f for k, f in d.items() if on()}
        odd.extend(res)
        return res
    rt = rng.choice(world.RT_ALL)
    kind = rng.choice(['static', 'static+discovery', 'dynamic'])
    o = opmod.OP(c.net, 'https://op.example.com', 0, tag='op0', md={k: f(rng) for k, f in some(ODD_MD).items()})
    o.sid = on()
    style = rng.choice([{}, {'indent': 4}, {'ensure_ascii': False}, {'separators': (',', ':')}, {'sort_keys': True}])
    ct, latin = rng.choice(CTYPES), on()
    tok = {k: f(rng) for k, f in some(ODD_TOKEN).items()}
    nulls = ['x_null'] if on() else []

    def again(rec, res, extra=(), drop=()):
        d = json.loads(res[2])
        d.update(extra)
        items = list(d.items())
        rng.shuffle(items)
        body = json.dumps(dict(items), **style)
        if on():
            body = '\n ' + body + '\r\n'
        typ, raw = ct, body.encode('utf-8')
        if latin:
            try:
                typ, raw = 'application/json; charset=iso-8859-1', body.encode('latin-1')
            except UnicodeEncodeError:
                pass
        return res[0], {**{k: v for k, v in res[1].items() if k.lower() != 'content-type'}, 'Content-Type': typ,
                        'Cache-Control': 'no-store', 'Pragma': 'no-cache'}, raw
    claims = some(ODD_CLAIMS)
    orig = o.claims
    o.claims = lambda g, **kw: {**orig(g, **kw), **{k: f(rng, g) for k, f in claims.items()}}
    for ep in ('discovery', 'registration_endpoint', 'userinfo_endpoint', 'jwks_uri'):
        o.hook[ep] = again

    def token_hook(rec, res):
        d = json.loads(res[2])
        ex = dict(tok)
        for k in nulls:
            ex[k] = None
        if on():    # parameters that mean something elsewhere
            for k, v in (('state', rng.choice(states + ['a' * 32])), ('key', rng.choice(states)), ('nonce', 'n' * 24), ('iss', 'https://x.example.org'),
                         ('code', 'c' * 20), ('client_id', 'someone'), ('sub', 'somebody'), ('sid', 'other'), ('request_body', 'x'),
                         ('redirect_uri', 'https://x.example.org/cb')):
                if on():
                    ex[k] = v
                    odd.append(k)
        return again(rec, res, ex)
    states, kept = [], {}

    def others(s):
        for st, was in kept.items():
            if st != s.state:
                c.equal(world.record(h, st), was, 'another session was changed')
        kept[s.state] = world.record(h, s.state)
    o.hook['token_endpoint'] = token_hook
    o.with_refresh = rng.random() < .7
    cnf, _ = world.gen_conf(rng, o, kind=kind, rt=rt, auth=rng.choice(world.AUTHS[:3]))
    h = world.handler({o.issuer: cnf})
    todo = [world.begin(c, h, o) for _ in range(2)]
    states.extend(s.state for s in todo)
    for s in todo:
        kept[s.state] = world.record(h, s.state)
    for s in todo:
        world.answer(c, s)
        resp = dict(s.resp)
        for k2, v in (('scope', 'openid email'), ('iss', o.issuer), ('client_id', s.req['client_id']), ('x', 'y z'), ('authuser', '0'),
                      ('prompt', 'none')):
            if on():
                resp[k2] = v
        if 'token_type' in resp and on():
            resp['token_type'] = 'bearer'
        world.finalize(c, h, s, resp=resp)
        world.check_result(c, s)
        others(s)
        if s.grant['ats']:
            c.check(h.get_valid_access_token(s.state)[0] in s.grant['ats'], 'the access token is not valid')
        if s.grant['rts']:
            r = h.refresh_access_token(s.state)
            c.equal(r['access_token'], s.grant['ats'][-1], 'refreshed token')
            c.equal(h.get_valid_access_token(s.state)[0], s.grant['ats'][-1], 'valid access token')
            others(s)
        if s.grant['idts']:
            c.equal(h.has_active_authentication(s.state), True, 'active')
    c.seen('liberal', kind, rt, tuple(sorted(odd)), tuple(nulls))


def run(r):
    r.cases('liberal', 120, liberal, thorough=6000)
    r.cases('sparse', 160, sparse, thorough=8000)
    r.cases('history', 260, history, thorough=12000)
    r.cases('hostile', 60, hostile, thorough=2500)
    r.cases('mixup', 80, mixup, thorough=2500)
    r.cases('wf', 24, wf_again, thorough=400)
    r.cases('by key', 40, by_key, thorough=1500)
