"""C06: PKCE binds each code exchange to its own authorization request."""
import copy
import hashlib
import json
import os
import re

import jose
import op as opmod
import world
from core import Violation, short
from vclock import CLOCK

RULE = ('A case is a set of interleaved sessions over several issuers with and without PKCE; challenges are read from the '
        'authorization requests as the provider understands them and matched with the verifier in the token requests; all '
        'traffic is searched for verifiers in other places. Non-trivial: a code exchange whose verifier was matched with '
        'its challenge; distinct by (method, length, response type, set-up, how the request was passed, sessions).')
ASSUMPTIONS = ['a response type without a code may or may not carry a challenge']

HASH = {'S256': 'sha256', 'S384': 'sha384', 'S512': 'sha512'}
UNRESERVED = re.compile(r'^[A-Za-z0-9\-._~]+$')
ISS = ['https://op.example.com', 'https://op.example.com/two', 'https://op.example.net:8443', 'https://third.example.org/']


def challenge(method, verifier):
    return jose.b64e(hashlib.new(HASH[method], verifier.encode()).digest())


class World:
    def __init__(self, c, rng, n, how=None):
        os.chdir(c.dir)
        self.c, self.rng, self.ops, self.conf, confs = c, rng, [], {}, {}
        for k, iss in enumerate(rng.sample(ISS, n)):
            md = {'request_parameter_supported': True, 'request_uri_parameter_supported': True,
                  'request_object_signing_alg_values_supported': ['RS256', 'ES256'],
                  'code_challenge_methods_supported': ['S256', 'S384', 'S512']}
            o = opmod.OP(c.net, iss, k, md=md, tag='op%d' % k)
            o.with_refresh = True
            kind = rng.choice(['static', 'static+discovery', 'dynamic'])
            rt = rng.choice(['code', 'code', 'code id_token', 'code token', 'code id_token token'])
            use = rng.random() < .8 or k == 0
            method, length = rng.choice(sorted(HASH)), rng.choice([43, 44, 64, 100, 128])
            ao = world.pkce(length, method) if use else {}
            if use and length == 64 and rng.random() < .6:      # the documented defaults
                del ao['pkce']['kwargs']['code_challenge_length']
            if use and method == 'S256' and rng.random() < .4:
                del ao['pkce']['kwargs']['code_challenge_method']
            mode = how or rng.choice(['plain', 'plain', 'request', 'request_uri', 'par'])
            if mode == 'par':
                ao.update(world.par(body_format=rng.choice(['jws', 'urlencoded']), merge_rule=rng.choice(['strict', 'lax'])))
            if rng.random() < .2:
                o.md['dpop_signing_alg_values_supported'] = ['ES256']
                ao.update(world.dpop())
            cnf, desc = world.gen_conf(rng, o, kind=kind, rt=rt, add_ons=ao)
            if mode == 'request_uri':
                cnf['local_dir'] = os.path.join(c.dir, 'r%d' % k)
            self.conf[o.issuer] = dict(use=use, method=method, length=length, mode=mode, desc=desc, rt=rt)
            o.fetch = lambda uri, d=cnf.get('local_dir'): open(os.path.join(d, uri.rsplit('/', 1)[1])).read()
            confs[iss] = cnf
            self.ops.append(o)
        self.h = world.handler(confs)
        self.sess, self.verifiers, self.seen = [], {}, 0

    def begin(self):
        rng, c = self.rng, self.c
        o = rng.choice(self.ops)
        cf = self.conf[o.issuer]
        kw = {}
        if cf['mode'] in ('request', 'request_uri'):
            kw['behaviour_args'] = {'request_param': cf['mode']}
        s = world.begin(c, self.h, o, **kw)
        p = o.resolve(o.read_authz(s.url))
        s.p = p
        if cf['use']:
            c.equal(p.get('code_challenge_method'), cf['method'], 'announced challenge method')
            n = {'S256': 43, 'S384': 64, 'S512': 86}[cf['method']]
            c.check(re.fullmatch('[A-Za-z0-9_-]{%d}' % n, p.get('code_challenge', '')), 'ill-formed code_challenge',
                    p.get('code_challenge'))
            c.check(p['code_challenge'] not in [x.p.get('code_challenge') for x in self.sess], 'challenge used twice')
        else:
            c.check('code_challenge' not in p and 'code_challenge_method' not in p,
                    'code challenge from a client without PKCE', short(p))
        c.check('code_verifier' not in p and 'code_verifier' not in s.url, 'verifier in an authorization request')
        s.stage = 'begun'
        self.sess.append(s)
        self.watch()
        return s

    def pick(self, *st):
        x = [s for s in self.sess if s.stage in st]
        return self.rng.choice(x) if x else None

    def answer(self):
        s = self.pick('begun')
        if s:
            world.answer(self.c, s)
            s.stage = 'answered'

    def finish(self, fail=False):
        s = self.pick('answered')
        if not s:
            return
        c = self.c
        if fail:
            if {'token', 'id_token'} & s.grant['rt']:
                return
            how = self.rng.choice(['error', 'down'])

            def fault(rec):
                if rec.endpoint == 'token_endpoint':
                    if how == 'down':
                        raise opmod.ProtocolError('down')
                    return s.op.err('temporarily_unavailable', 503)
            self.c.net.fault = fault
            try:
                c.refused(lambda: self.h.finalize(s.op.issuer, dict(s.resp)), 'login without tokens')
            finally:
                self.c.net.fault = None
            self.watch(s)
            s.tries = getattr(s, 'tries', 0) + 1
            return
        world.finalize(c, self.h, s)
        world.check_result(c, s)
        s.stage = 'done'
        self.watch(s)

    def watch(self, cur=None):
        """Look at all requests since the last time."""
        c = self.c
        for rec in c.net.log[self.seen:]:
            text = rec.text()
            is_code = rec.endpoint == 'token_endpoint' and dict(rec.form()).get('grant_type') == 'authorization_code'
            if is_code:
                p = rec.params()
                s = [x for x in self.sess if x.grant and x.grant.get('code') == p.get('code')]
                c.check(len(s) == 1, 'code exchange for an unknown code')
                s = s[0]
                cf = self.conf[s.op.issuer]
                c.check(rec.op is s.op, 'code sent elsewhere', rec.url)
                if cf['use']:
                    v = p.get('code_verifier', '')
                    c.equal(len(v), cf['length'], 'length of the code verifier')
                    c.check(UNRESERVED.match(v), 'reserved characters in the code verifier', v)
                    c.equal(challenge(cf['method'], v), s.p['code_challenge'], 'verifier does not match the challenge')
                    old = self.verifiers.get(v)
                    c.check(old is None or old is s, 'verifier used for two sessions')
                    self.verifiers[v] = s
                    c.check(v not in rec.url and v not in json.dumps(rec.headers), 'verifier outside the body')
                    c.seen(cf['method'], cf['length'], cf['mode'], cf['desc'], len(self.sess), len(self.ops),
                           getattr(s, 'tries', 0))
                    c.ev('verifiers matched')
                else:
                    c.check('code_verifier' not in p, 'verifier from a client without PKCE')
            else:
                c.check('code_verifier' not in text, 'verifier in another request', '%s %s' % (rec.method, rec.url))
            for v, s in self.verifiers.items():
                if not (is_code and v == dict(rec.form()).get('code_verifier')):
                    c.check(v not in text, 'verifier leaked', '%s %s' % (rec.method, rec.url))
        self.seen = len(c.net.log)
        for s in self.sess:
            for v in self.verifiers:
                c.check(v not in s.url, 'verifier in an authorization request')

    def more(self):
        s = self.pick('done')
        if s and s.grant['rts'] and self.rng.random() < .5:
            self.h.refresh_access_token(s.state)
        elif s:
            self.h.get_user_info(s.state)
        self.watch()

    def clear(self):
        s = self.pick('done')
        if s:
            self.h.clear_session(s.state)
            s.stage = 'gone'


def history(c, rng, i):
    w = World(c, rng, rng.randint(1, 4))
    steps = [w.begin] * 5 + [w.answer] * 5 + [w.finish] * 4 + [lambda: w.finish(True), w.more, w.clear]
    for _ in range(rng.choice([8, 16, 30])):
        rng.choice(steps)()
    if not w.sess:
        w.begin()
    while w.pick('begun'):
        w.answer()
    while w.pick('answered'):
        w.finish()


def unknown(c, rng, i):
    """Unknown methods are refused."""
    bad = ['plain', 's256', 'S128', 'S1', 'SHA256', 'none', '', 'S256 ', 'S2560', 'md5', 'sha256', 'S3-256'][i % 12]
    o = opmod.OP(c.net, ISS[0], 0)
    cnf, desc = world.gen_conf(rng, o, rt=rng.choice(['code', 'code id_token']), add_ons=world.pkce(64, bad))
    h = world.handler({o.issuer: cnf})
    c.refused(lambda: h.begin(o.issuer), 'request sent with an unknown challenge method', bad)
    c.check(all(r.endpoint in ('discovery', 'registration_endpoint', 'jwks_uri') for r in c.net.log), 'something was sent')
    c.seen('unknown', bad, desc[0])


def wrong(c, rng, i):
    """The provider with a strict PKCE check refuses what the library sends for a spoiled session: an authorization code of
    one session can not be redeemed by another one."""
    o = opmod.OP(c.net, ISS[0], 0)
    method = rng.choice(sorted(HASH))
    cnf, desc = world.gen_conf(rng, o, rt='code', add_ons=world.pkce(rng.choice([43, 64, 128]), method))
    o.idt_at_token = rng.random() < .5
    h = world.handler({o.issuer: cnf})
    ss = [world.begin(c, h, o) for _ in range(rng.randint(2, 5))]
    for s in ss:
        world.answer(c, s)
    a, b = rng.sample(ss, 2)
    c.refused(lambda: h.finalize(o.issuer, dict(a.resp, code=b.resp['code'])), 'code of another session accepted')
    v = [r.params().get('code_verifier') for r in c.net.log if r.endpoint == 'token_endpoint']
    c.equal([challenge(method, x) for x in v], [a.grant['challenge']], 'verifier of the session was not used')
    text = json.dumps(world.record(h, a.state))
    c.check(not any(t in text for t in b.grant['ats']), 'token kept')
    c.seen('injection', desc, len(ss))
    for s in ss:
        if s not in (a, b):
            world.finalize(c, h, s)
            world.check_result(c, s)


def same_default(c, rng, i):
    """All clients made from one shared configuration."""
    method, length = rng.choice(sorted(HASH)), rng.choice([43, 77, 128])
    ops = [opmod.OP(c.net, iss, k, tag='op%d' % k) for k, iss in enumerate(rng.sample(ISS, rng.randint(2, 4)))]
    for o in ops:
        o.rp_jwks = world.rp_public_jwks()
    cnf = world.dynamic_conf(None, [rng.choice(['code', 'code id_token'])], add_ons=world.pkce(length, method))
    h = world.handler({'': cnf})
    ss = []
    for k in range(rng.randint(2, 8)):
        o = rng.choice(ops)
        s = world.begin(c, h, o)
        p = o.read_authz(s.url)
        c.equal(p.get('code_challenge_method'), method, 'announced challenge method')
        ss.append(s)
    rng.shuffle(ss)
    for s in ss:
        world.answer(c, s)
    rng.shuffle(ss)
    for s in ss:
        n = len(c.net.log)
        world.finalize(c, h, s)
        tr = [r for r in c.net.log[n:] if r.endpoint == 'token_endpoint']
        c.equal(len(tr), 1, 'number of token requests')
        p = tr[0].params()
        c.equal(len(p['code_verifier']), length, 'length of the code verifier')
        c.equal(challenge(method, p['code_verifier']), s.grant['challenge'], 'verifier does not match the challenge')
        c.seen('shared', method, length, len(ops), len(ss))


def run(r):
    r.cases('history', 240, history, thorough=12000)
    r.cases('unknown', 36, unknown, thorough=360)
    r.cases('wrong', 60, wrong, thorough=3000)
    r.cases('same default', 60, same_default, thorough=3000)
