"""C14: dynamic registration asks for what will be used and adopts what was granted."""
import copy
import json
import os

from oidcrp.oidc.registration import create_callbacks
from oidcrp.client_auth import valid_service_context
from oidcrp.defaults import DEFAULT_CLIENT_CONFIGS, DEFAULT_OIDC_SERVICES, DEFAULT_RP_KEY_DEFS
from oidcrp.oidc import RP
from oidcrp.rp_handler import RPHandler

import jose
import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

RULE = ('A case is one handler whose clients register dynamically with generated preferences, callback kinds, key publishing and '
        'answers (identifiers, secrets, methods, expiry), own or shared configuration. The oracle reads each registration request '
        'as a strict provider would, and then watches the authorization, token and logout requests for the use of exactly what was '
        'granted. Non-trivial: a registration and the requests that follow from it; distinct by (response types, callbacks, '
        'authentication, granted deviation).')
ASSUMPTIONS = ['the provider returns the redirect_uris that were asked for', 'client secrets have at least 16 characters']

GT = {'code': {'authorization_code'}, 'id_token': {'implicit'}, 'id_token token': {'implicit'},
      'code id_token': {'authorization_code', 'implicit'}, 'code token': {'authorization_code', 'implicit'},
      'code id_token token': {'authorization_code', 'implicit'}}
SECRETCH = 'abcXYZ0189-._~!$&\'()*+,;=:@/?%# \u00e5\u4e2d"\\<>'


def gen_issuer(rng, k, how=None):
    if how == 'close':      # issuers that are easily taken for each other
        return ['https://multi.example.net/t1', 'https://multi.example.net/T1', 'https://multi.example.net/t-1', 'https://multi.example.net',
                'https://multi.example.net:8443/t1', 'https://multi.example.net/t', 'https://multi.example.net/t11'][k]
    return rng.choice(['https://op%d.example.com', 'https://multi.example.net/t%d', 'https://o.example.org:844%d/x/']) % k


def regs(c, o):
    return [r for r in c.net.log if r.op is o and r.endpoint == 'registration_endpoint']


def support(rng):
    """What a provider says about logout: that it can, that it cannot, or nothing."""
    md = {}
    for k in ('frontchannel_logout_supported', 'backchannel_logout_supported'):
        v = rng.choice([True, True, True, False, None])
        if v is not None:
            md[k] = v
    return md


def check_request(c, o, rec, rts, prefs, conf_uris, jwks_path, base, usable):
    usable = {u: v for u, v in usable.items() if 'logout' not in u or o.md.get(u.replace('_usable', '_supported'))}
    c.equal((rec.method, rec.url), ('POST', o.md['registration_endpoint']), 'registration request')
    c.check(rec.headers.get('content-type', '').split(';')[0] == 'application/json', 'content type of a registration request',
            rec.headers)
    req = rec.info['req']
    c.check('client_id' not in req and 'client_secret' not in req, 'credentials in a registration request', req)
    c.equal(req.get('response_types'), rts, 'registered response types')
    want = set().union(*(GT[r] for r in rts))
    c.equal((sorted(req.get('grant_types', [])), len(req.get('grant_types', []))), (sorted(want), len(want)), 'grant types', rts)
    for p, v in prefs.items():
        c.equal(req.get(p), v, 'registered %s' % p)
    uris = req.get('redirect_uris')
    c.check(isinstance(uris, list) and uris and len(set(uris)) == len(uris), 'redirect_uris', uris)
    if conf_uris:
        c.equal(uris, conf_uris, 'configured redirect_uris')
    else:
        n = ('code' in rts) + any(r != 'code' for r in rts) + bool(usable.get('form_post_usable'))
        c.equal(len(uris), n, 'number of redirect_uris', (rts, usable, uris))
        for u in uris:
            c.check(u.startswith(base + '/'), 'redirect_uri outside the base URL', u)
    for name, use in (('backchannel_logout_uri', 'backchannel_logout_usable'), ('frontchannel_logout_uri', 'frontchannel_logout_usable'),
                      ('request_uris', 'request_uri_usable')):
        have = req.get(name)
        if usable.get(use):
            for u in have if isinstance(have, list) else [have]:
                c.check(isinstance(u, str) and u.startswith(base + '/'), '%s missing or outside the base URL' % name, req)
        else:
            c.check(not have, '%s registered although not usable' % name, have)
    have = req.get('post_logout_redirect_uris')
    if usable.get('backchannel_logout_usable') or usable.get('frontchannel_logout_usable'):
        c.check(isinstance(have, list) and have and all(u.startswith(base + '/') for u in have), 'post_logout_redirect_uris', have)
    else:
        c.check(not have, 'post_logout_redirect_uris although there is no logout', have)
    c.check(('jwks_uri' in req) != ('jwks' in req), 'jwks_uri and jwks', sorted(req))
    if jwks_path:
        c.equal(req['jwks_uri'], base.rstrip('/') + '/' + jwks_path.lstrip('/'), 'jwks_uri')
    else:
        got = req['jwks']['keys']
        pub = world.rp_public_jwks()['keys']
        c.equal(sorted(k.get('n') or k.get('x') for k in got), sorted(k.get('n') or k.get('x') for k in pub), 'keys registered')
        c.check(not any(x in k for k in got for x in ('d', 'p', 'q', 'dp', 'dq', 'qi', 'k')), 'private keys in a registration request',
                lambda: [sorted(k) for k in got])
    # each serves its own purpose
    got = all_uris(req)
    c.equal(sorted(set(got)), sorted(got), 'the same URI for different purposes')
    return req


def all_uris(req):
    res = []
    for k in ('redirect_uris', 'request_uris', 'post_logout_redirect_uris', 'backchannel_logout_uri', 'frontchannel_logout_uri'):
        v = req.get(k) or []
        res += v if isinstance(v, list) else [v]
    return res


TOP = {'logo_uri': ['https://rp.example.org/logo.png'], 'tos_uri': ['https://rp.example.org/tos?x=1&y=2'], 'default_max_age': [1, 3600],
       'initiate_login_uri': ['https://rp.example.org/login'], 'require_auth_time': [True], 'policy_uri': ['https://rp.example.org/pol'],
       'default_acr_values': [['1', 'loa-2']]}


def main(c, rng, i):
    os.chdir(c.dir)
    n = rng.randint(1, 3)
    shared = rng.random() < .4
    jwks_path = rng.choice(['static/jwks.json', '/jwks.json', None])
    base = rng.choice([world.BASE, 'https://rp.example.org/app', 'https://rp.example.org:8443'])
    kj = world.rp_keyjar()
    h = world.handler({}, base=base, keyjar=kj, jwks_path=jwks_path)
    confs, info, ops = {}, {}, []

    def gen():
        rts = rng.sample(world.RT_ALL, rng.randint(1, 3))
        usable = {u: True for u in ('form_post_usable', 'request_uri_usable', 'backchannel_logout_usable', 'frontchannel_logout_usable')
                  if rng.random() < .3}
        auth = rng.choice(world.AUTHS[:3])
        if jwks_path is None or rng.random() < .3:
            auth = rng.choice(world.AUTHS)
        prefs = {'client_name': world.rndtext(rng)} if rng.random() < .4 else {}
        if rng.random() < .3:
            prefs['subject_type'] = 'pairwise'
        prefs['contacts'] = ['ops@rp.example.org']
        prefs['token_endpoint_auth_method'] = auth
        if auth == 'client_secret_jwt':
            prefs['token_endpoint_auth_signing_alg'] = rng.choice(['HS256', 'HS512'])
        uris = [base + '/own/%d/%s' % (len(confs), world.rndtext(rng, 4, 'abc')) + str(j) for j in range(rng.randint(1, 2))] if rng.random() < .2 and not shared else None
        cnf = world.dynamic_conf(None, rts, auth, add_ons=world.pkce() if rng.random() < .2 and all('code' in r.split() for r in rts)
                                 else None, prefs=prefs)
        # either place will do
        for u, v in usable.items():
            (cnf if rng.random() < .3 else cnf['client_preferences'])[u] = v
        if uris:
            cnf['redirect_uris'] = list(uris)
        else:
            cnf.pop('redirect_uris', None) if rng.random() < .5 else None
        if rng.random() < .3:
            # registered as it says in the configuration
            for p, v in TOP.items():
                if rng.random() < .4:
                    prefs[p] = cnf[p] = rng.choice(v)
        return cnf, (rts, usable, auth, prefs, uris)
    if shared:
        confs[''], common = gen()
    how = rng.choice(['close', 'any'])
    ks = rng.sample(range(7), n)
    # the same URIs after a restart, if a seed is configured
    seed = rng.choice([None, 'BabyHoldOn', 'se\u00e5d', world.rndtext(rng, 20)])
    for k in range(n):
        iss = gen_issuer(rng, ks[k], how)
        o = opmod.OP(c.net, iss, k, tag='op%d' % k, md=support(rng))
        o.rp_jwks = world.rp_public_jwks()
        ops.append(o)
        if shared:
            info[iss] = common
        else:
            confs[iss], info[iss] = gen()
            confs[iss]['issuer'] = iss
    if seed:
        for cnf in confs.values():
            cnf['hash_seed'] = seed
    h.client_configs = confs
    granted = {}
    for o in ops:
        def grant(rec, res, o=o):
            d = json.loads(res[2])
            old = d['client_id']
            dev = rng.choice(['plain', 'plain', 'odd', 'method', 'token', 'never', 'noexp', 'echo-less'])
            if dev == 'odd':
                d['client_id'] = world.rndtext(rng, 12, SECRETCH.replace(':', '')) + o.tag
                d['client_secret'] = world.rndtext(rng, 40, SECRETCH)
            elif dev == 'method':
                d['token_endpoint_auth_method'] = rng.choice(world.AUTHS[:2])
            elif dev == 'token':
                d['registration_access_token'] = o.fresh('rat')
                d['registration_client_uri'] = o.base + '/register/client?id=' + d['client_id']
            elif dev == 'never':
                d['client_secret_expires_at'] = 0
            elif dev == 'noexp':
                d.pop('client_secret_expires_at')
            elif dev == 'echo-less':
                d = {k: v for k, v in d.items() if k in ('client_id', 'client_secret', 'client_secret_expires_at',
                                                         'token_endpoint_auth_method', 'redirect_uris')}
            cl = o.clients.pop(old)
            cl.update(client_id=d['client_id'], client_secret=d['client_secret'])
            o.clients[d['client_id']] = cl
            granted[o.issuer] = (dev, d)
            return jresp(d, 201)
        o.hook['registration_endpoint'] = grant
    reqs = {}
    order = list(ops) * rng.randint(2, 3)
    rng.shuffle(order)
    for o in order:
        rts, usable, auth, prefs, uris = info[o.issuer]
        if o.issuer not in reqs:
            c.equal(regs(c, o), [], 'registered before it is needed')
        rt = rng.choice(rts)
        if {'code', 'token'} == set(rt.split()) and False:
            continue
        args = {'response_type': rt}
        if usable.get('form_post_usable') and not uris and rng.random() < .4 and rt != 'code':
            args['response_mode'] = 'form_post'
        s = world.begin(c, h, o, req_args=args)
        rr = regs(c, o)
        c.equal(len(rr), 1, 'number of registrations', o.tag)
        if o.issuer not in reqs:
            reqs[o.issuer] = check_request(c, o, rr[0], rts, prefs, uris, jwks_path, base, usable)
            c.ev('registration requests judged')
            others = [u for iss, q in reqs.items() if iss != o.issuer for u in all_uris(q)]
            both = set(others) & set(all_uris(reqs[o.issuer]))
            c.check(not both, 'same URI registered with two issuers', both)
            c.seen('registration', tuple(sorted(rts)), tuple(sorted(usable)), auth, granted[o.issuer][0], bool(uris), jwks_path is None)
        dev, d = granted[o.issuer]
        ctx = world.context(h, o)
        c.equal((ctx.client_id, ctx.client_secret), (d['client_id'], d['client_secret']), 'granted credentials')
        c.equal(ctx.client_secret_expires_at, d.get('client_secret_expires_at', 0), 'granted expiry')
        exp = d.get('client_secret_expires_at', 0)
        for t in (int(CLOCK.now), exp - 1, exp + 1):
            if t > 0:
                c.equal(valid_service_context(ctx, t), exp == 0 or t <= exp, 'validity of the secret', (t, exp))
        world.answer(c, s)                       # strict: client_id and redirect_uri must be the registered ones
        c.equal(s.req['client_id'], d['client_id'], 'client_id in the authorization request')
        c.check(s.req['redirect_uri'] in reqs[o.issuer]['redirect_uris'], 'redirect_uri that was not registered', s.req['redirect_uri'])
        n0 = len(c.net.log)
        world.finalize(c, h, s)
        world.check_result(c, s)
        m = d.get('token_endpoint_auth_method', 'client_secret_basic')
        toks = [r for r in c.net.log[n0:] if r.endpoint == 'token_endpoint']
        if s.grant['rts'] and rng.random() < .5:
            h.refresh_access_token(s.state)
            toks = [r for r in c.net.log[n0:] if r.endpoint == 'token_endpoint']
        for r in toks:
            a = r.info['auth']
            c.equal((a['method'], a['client_id'], a['ok']), (m, d['client_id'], True), 'client authentication after registration', a)
            c.ev('uses of granted credentials')
            c.seen('use', m, dev)
        if 'registration_access_token' in d:
            for r in c.net.log:
                c.check(d['registration_access_token'] not in r.text(), 'registration access token sent somewhere', r.url)
        if rng.random() < .2:
            h.do_client_registration(h.issuer2rp[o.issuer], o.issuer)
            c.equal(len(regs(c, o)), 1, 'registered client registered again')
        if rng.random() < .3:
            CLOCK.advance(rng.randint(1, 3000))
    for o in ops:
        if o.issuer in reqs:
            c.equal(len(regs(c, o)), 1, 'number of registrations', o.tag)
    gen = {}
    for o in ops:
        if o.issuer in reqs:
            ctx = world.context(h, o)
            p = rng.choice(['requests', '/requests', 'a/b', '/a/b'])
            gen[o.issuer] = u = ctx.generate_request_uris(p)
            c.check(len(u) == 1 and u[0].startswith(base + '/' + p.strip('/') + '/') and u[0].count('//') == 1, 'generated request URI', u)
            c.equal(u, ctx.generate_request_uris(p), 'generated request URI, again')
            c.equal(ctx.filename_from_webname(u[0]), u[0][len(base) + 1:], 'file of the request URI')
    flat = [u[0].split('/')[-1] for u in gen.values()]
    c.equal(len(set(flat)), len(flat), 'distinct request URIs', gen)


def secret_key(c, rng, i):
    """The granted secret is a usable key: ID Tokens signed with it are accepted, and only with it."""
    os.chdir(c.dir)
    alg = rng.choice(['HS256', 'HS384', 'HS512'])
    rt = rng.choice(['code', 'id_token', 'code id_token'])
    ops = [opmod.OP(c.net, 'https://op%d.example.com' % k, k, tag='op%d' % k, md={
        'id_token_signing_alg_values_supported': ['RS256', 'HS256', 'HS384', 'HS512']}) for k in range(2)]
    confs = {}
    shared = rng.random() < .5
    for o in ops:
        o.idt_alg = alg
        o.rp_jwks = world.rp_public_jwks()
        confs['' if shared else o.issuer] = world.dynamic_conf(None if shared else o, [rt], rng.choice(world.AUTHS[:3]),
                                                               prefs={'id_token_signed_response_alg': alg})
        if confs['' if shared else o.issuer]['client_preferences']['token_endpoint_auth_method'] == ['client_secret_jwt']:
            confs['' if shared else o.issuer]['client_preferences']['token_endpoint_auth_signing_alg'] = 'HS256'
    h = world.handler(confs)
    for rnd in range(2):
        for o in ops:
            s = world.login(c, h, o)
            world.check_result(c, s)
            c.equal(jose.parts(s.grant['idts'][-1])[0]['alg'], alg, 'algorithm of the ID Token')
    a, b = ops
    s = world.begin(c, h, a)
    bs = list(b.clients.values())[0]['client_secret']

    def forge(tok):
        hd, p, _, _ = jose.parts(tok)
        return jose.jws(p, alg, jose.Key.oct(bs))
    world.answer(c, s, mutate=lambda resp, g: {k: forge(v) if k == 'id_token' else v for k, v in resp.items()})

    def tok(rec, res):
        d = json.loads(res[2])
        if 'id_token' in d:
            d['id_token'] = forge(d['id_token'])
        return jresp(d)
    a.hook['token_endpoint'] = tok
    c.refused(lambda: h.finalize(a.issuer, dict(s.resp)), 'secret of another issuer accepted as key', alg)
    c.seen('secret', alg, rt, shared)


def failing(c, rng, i):
    """A registration that fails can be repeated, and leaves nothing behind."""
    os.chdir(c.dir)
    o = opmod.OP(c.net, gen_issuer(rng, 0), 0, tag='op0')
    o.rp_jwks = world.rp_public_jwks()
    h = world.handler({'': world.dynamic_conf(None, [rng.choice(world.RT_ALL)])} if rng.random() < .5 else
                      {o.issuer: world.dynamic_conf(o, [rng.choice(world.RT_ALL)])})
    n = rng.randint(1, 3)
    how = []
    for _ in range(n):
        x = rng.choice(['error', 'noid', '500', '302', 'empty', 'conn', 'garbage'])
        how.append(x)

        def bad(rec, res):
            return {'error': jresp({'error': 'invalid_redirect_uri'}, 400),
                    'noid': jresp({k: v for k, v in json.loads(res[2]).items() if k != 'client_id'}, 201),
                    '500': (500, {}, 'oops'), '302': (302, {'Location': o.base + '/x'}, ''), 'empty': (200, {'Content-Type': 'application/json'}, ''),
                    'garbage': (200, {'Content-Type': 'application/json'}, '{"client_id": '), 'conn': None}[x]
        if x == 'conn':
            def fault(rec):
                if rec.endpoint == 'registration_endpoint':
                    raise __import__('net').NetFault('reset')
            c.net.fault = fault
        else:
            o.hook['registration_endpoint'] = bad
        c.refused(lambda: h.begin(o.issuer), 'failed registration', x)
        c.net.fault = None
        o.hook.pop('registration_endpoint', None)
        c.check(o.issuer not in h.issuer2rp, 'client in use after a failed registration', x)
    n0 = len(regs(c, o))
    s = world.login(c, h, o)
    world.check_result(c, s)
    c.equal(len(regs(c, o)), n0 + 1, 'registrations after failures')
    world.check_result(c, world.login(c, h, o))
    c.equal(len(regs(c, o)), n0 + 1, 'registrations after failures')
    c.seen('failing', tuple(how))


def restart(c, rng, i):
    """The URIs follow from the issuer and the hash seed: the same ones after a restart, other ones with another seed."""
    os.chdir(c.dir)
    ops = [opmod.OP(c.net, gen_issuer(rng, k, 'close'), k, tag='op%d' % k,
                    md={'frontchannel_logout_supported': True, 'backchannel_logout_supported': True}) for k in range(2)]
    for o in ops:
        o.rp_jwks = world.rp_public_jwks()
    rts = rng.sample(world.RT_ALL, rng.randint(1, 2))
    usable = {u: True for u in ('form_post_usable', 'backchannel_logout_usable', 'frontchannel_logout_usable') if rng.random() < .4}
    shared = rng.random() < .5
    where = rng.choice(['handler', 'configuration', 'both', 'one', 'none'])
    seed = [rng.choice(['BabyHoldOn', 'se\u00e5d', world.rndtext(rng, 12), world.rndtext(rng, 90)]) for _ in range(3)]
    if where == 'handler' and rng.random() < .5:
        seed[0] = seed[0].encode('utf-8')

    def process(changed=False):
        confs = {}
        for o in ops:
            confs['' if shared else o.issuer] = cnf = world.dynamic_conf(None if shared else o, list(rts), 'client_secret_basic', prefs=dict(usable))
            cnf.pop('redirect_uris', None)
            if where in ('configuration', 'both') or where == 'one' and o is ops[0]:
                cnf['hash_seed'] = seed[1] + ('x' if changed else '')
        kw = {}
        if where in ('handler', 'both', 'one'):
            s = seed[0]
            if changed and where != 'both':
                s = s + (b'x' if isinstance(s, bytes) else 'x')
            kw['hash_seed'] = s
        h = world.handler(confs, **kw)
        res = {}
        for o in rng.sample(ops, 2):
            n0 = len(regs(c, o))
            world.check_result(c, world.login(c, h, o))
            rr = regs(c, o)[n0:]
            c.equal(len(rr), 1, 'number of registrations')
            res[o.issuer] = all_uris(rr[0].info['req'])
        a, b = res.values()
        c.check(not set(a) & set(b), 'same URI registered with two issuers', (a, b))
        return res
    first, again, other = process(), process(), process(True)
    for iss in first:
        if where == 'none':
            c.check(not set(first[iss]) & set(again[iss]), 'same URIs without a seed', first[iss])
        else:
            c.equal(again[iss], first[iss], 'other URIs after a restart', where)
        c.check(not set(first[iss]) & set(other[iss]), 'same URIs with another seed', first[iss])
    c.ev('restarts compared')
    c.seen('restart', where, shared, tuple(sorted(usable)), tuple(rts))


def direct(c, rng, i):
    """A client that is registered without a handler: what the caller asks for comes first, then what is configured."""
    os.chdir(c.dir)
    o = opmod.OP(c.net, gen_issuer(rng, rng.randrange(7), rng.choice(['close', 'any'])), 0, tag='op0')
    o.rp_jwks = world.rp_public_jwks()
    rts = rng.sample(world.RT_ALL, rng.randint(1, 3))
    base = rng.choice([world.BASE, 'https://rp.example.org/app'])
    cnf = world.dynamic_conf(o, rts, rng.choice(world.AUTHS[:2]), prefs={'contacts': ['pref@rp.example.org'], 'client_name': 'preferred'})
    cnf['base_url'] = base
    cnf.pop('redirect_uris', None)
    other = {'keys': [{'kty': 'oct', 'kid': 'other', 'k': 'AAECAwQFBgcICQoLDA0ODw'}]}
    conf = {'jwks_uri': 'https://rp.example.org/conf/jwks.json', 'jwks': dict(world.rp_public_jwks()),
            'redirect_uris': [base + '/conf/cb%d' % k for k in range(rng.randint(1, 2))],
            'request_uris': [base + '/conf/req'], 'backchannel_logout_uri': base + '/conf/bcl',
            'frontchannel_logout_uri': base + '/conf/fcl', 'post_logout_redirect_uris': [base + '/conf/out']}
    conf = {k: v for k, v in conf.items() if rng.random() < .4}
    cnf.update(copy.deepcopy(conf))
    args = {'jwks_uri': 'https://rp.example.org/arg/jwks.json', 'jwks': other, 'redirect_uris': [base + '/arg/cb'],
            'request_uris': [base + '/arg/req'], 'backchannel_logout_uri': base + '/arg/bcl',
            'frontchannel_logout_uri': base + '/arg/fcl', 'post_logout_redirect_uris': [base + '/arg/out'],
            'contacts': ['arg@rp.example.org'], 'client_name': 'called', 'response_types': [rng.choice(world.RT_ALL)],
            'client_uri': 'https://rp.example.org/', 'default_max_age': rng.choice([0, 60])}
    args = {k: v for k, v in args.items() if rng.random() < .3}
    svc = {'jwks_uri': 'https://rp.example.org/ctx/jwks.json', 'jwks': dict(world.rp_public_jwks())}
    svc = {k: v for k, v in svc.items() if rng.random() < .3}
    cl = RP(keyjar=world.rp_keyjar(), config=cnf, services=cnf["services"])
    ctx = cl.client_get('service_context')
    for k, v in svc.items():
        setattr(ctx, k, v)
    cl.do_request('provider_info')
    before = copy.deepcopy(args)
    passed = copy.deepcopy(args)
    rounds = []
    dev = rng.choice(['plain', 'noexp', 'odd', 'method'])

    def grant(rec, res):
        d = json.loads(res[2])
        cid = d['client_id']
        if dev == 'noexp':
            d.pop('client_secret_expires_at')
        elif dev == 'odd':
            d['client_secret'] = world.rndtext(rng, 40, SECRETCH)
            o.clients[cid]['client_secret'] = d['client_secret']
        elif dev == 'method':
            d['token_endpoint_auth_method'] = rng.choice(world.AUTHS[:2])
        rounds.append(d)
        return jresp(d, 201)
    o.hook['registration_endpoint'] = grant
    resp = cl.do_request('registration', request_args=passed) if passed or rng.random() < .5 else cl.do_request('registration')
    c.equal(passed, before, 'arguments of the caller changed')
    c.equal(len(regs(c, o)), 1, 'number of registrations')
    rec = regs(c, o)[0]
    c.equal((rec.method, rec.headers.get('content-type', '').split(';')[0]), ('POST', 'application/json'), 'registration request')
    req = rec.info['req']
    jw = [(n, src[n]) for src, n in ((args, 'jwks_uri'), (args, 'jwks'), (svc, 'jwks_uri'), (conf, 'jwks_uri'), (svc, 'jwks'), (conf, 'jwks'))
          if n in src][:1]
    c.equal({k: req[k] for k in ('jwks', 'jwks_uri') if k in req}, dict(jw), 'how the keys are told', (sorted(args), sorted(conf), sorted(svc)))
    for k in ('redirect_uris', 'request_uris', 'backchannel_logout_uri', 'frontchannel_logout_uri', 'post_logout_redirect_uris'):
        if k in args or k in conf and k != 'post_logout_redirect_uris':      # (C16 configured-post-logout-redirect-uris-ignored)
            c.equal(req.get(k), args.get(k, conf.get(k)), '%s of the registration request' % k, (sorted(args), sorted(conf)))
        elif k == 'redirect_uris':
            c.check(req.get(k) and all(u.startswith(base + '/') for u in req[k]), 'redirect_uris of the registration request', req)
        elif k != 'post_logout_redirect_uris':
            c.check(not req.get(k), '%s registered although not usable' % k, req)
    for k, v in {'contacts': ['pref@rp.example.org'], 'client_name': 'preferred', 'response_types': rts, 'client_uri': None,
                 'default_max_age': None}.items():
        c.equal(req.get(k), args.get(k, v), '%s of the registration request' % k, (sorted(args)))
    want = set().union(*(GT[r] for r in req['response_types']))
    c.equal((sorted(req.get('grant_types', [])), len(req.get('grant_types', []))), (sorted(want), len(want)), 'grant types', req['response_types'])
    d = rounds[0]
    c.equal((resp['client_id'], resp['client_secret']), (d['client_id'], d['client_secret']), 'answer to the registration')
    c.equal((ctx.client_id, ctx.client_secret, ctx.client_secret_expires_at),
            (d['client_id'], d['client_secret'], d.get('client_secret_expires_at', 0)), 'granted credentials')
    c.ev('registration requests judged')
    a = cl.client_get('service', 'authorization').get_request_parameters(request_args={
        'redirect_uri': req['redirect_uris'][0], 'response_type': 'code', 'scope': 'openid', 'state': 'af0ifjsldkj', 'nonce': 'n-0S6_WzA2Mj'})
    q = dict(__import__('urllib.parse').parse.parse_qsl(a['url'].split('?', 1)[1]))
    c.equal((q['client_id'], q['redirect_uri']), (d['client_id'], req['redirect_uris'][0]), 'authorization request after the registration')
    again = rng.randint(0, 2)
    for k in range(again):
        # a later registration, for one because the secret has expired, replaces what came with the earlier ones
        exp = int(CLOCK.now) + rng.choice([100, 5000, 10 ** 6]) if rng.random() < .7 else 0

        def regrant(rec, res):
            d = json.loads(res[2])
            d['client_secret_expires_at'] = exp
            if rng.random() < .5:       # an update of the same client
                cid = rounds[-1]['client_id']
                o.clients[cid] = dict(o.clients.pop(d['client_id']), client_id=cid)
                d['client_id'] = cid
            d['registration_access_token'], d['registration_client_uri'] = 'rat-%d' % k, o.base + '/reg/%d' % k
            rounds.append(d)
            return jresp(d, 201)
        o.hook['registration_endpoint'] = regrant
        cl.do_request('registration', request_args=copy.deepcopy(args))
        d = rounds[-1]
        c.equal((ctx.client_id, ctx.client_secret, ctx.client_secret_expires_at, ctx.registration_access_token),
                (d['client_id'], d['client_secret'], exp, d['registration_access_token']), 'granted credentials, registered again')
        c.equal(ctx.registration_response['client_id'], d['client_id'], 'registration response, registered again')
        c.ev('later registrations')
    c.seen('direct', tuple(sorted(args)), tuple(sorted(conf)), tuple(sorted(svc)), dev, again)


def asked(c, rng, i):
    """The caller of a handler asks for something at a registration, of several providers with the same arguments."""
    os.chdir(c.dir)
    ops = [opmod.OP(c.net, gen_issuer(rng, k, 'any'), k, tag='op%d' % k) for k in range(2)]
    rts = rng.sample(world.RT_ALL, rng.randint(1, 2))
    conf = world.dynamic_conf(None, rts, rng.choice(world.AUTHS[:2]), prefs={'contacts': ['pref@rp.example.org']})
    h = world.handler({'': conf}, jwks_path=rng.choice([None, 'jwks.json']))
    pool = {'client_name': 'called', 'contacts': ['arg@rp.example.org'], 'default_max_age': rng.choice([0, 60]),
            'client_uri': 'https://rp.example.org/', 'jwks': dict(world.rp_public_jwks()), 'subject_type': 'pairwise'}
    args = {k: v for k, v in pool.items() if rng.random() < .4}
    pool2 = dict(pool, client_name='behaves', initiate_login_uri='https://rp.example.org/login')
    beh = {k: v for k, v in pool2.items() if rng.random() < .3}
    beh.update({k: 'x' for k in ('collect_tokens', 'other') if rng.random() < .2})
    kw = {}
    if args or rng.random() < .5:
        kw['request_args'] = copy.deepcopy(args)
    if beh or rng.random() < .5:
        kw['behaviour_args'] = copy.deepcopy(beh)
    first = copy.deepcopy(kw)
    uris = set()
    for o in ops:
        o.rp_jwks = world.rp_public_jwks()
        cl = h.init_client(o.issuer)
        iss = h.do_provider_info(cl)
        c.equal(iss, o.issuer, 'issuer')
        h.do_client_registration(cl, iss, **kw)
        c.equal(kw, first, 'arguments of the caller changed')
        c.equal(len(regs(c, o)), 1, 'number of registrations')
        req = regs(c, o)[0].info['req']
        for k in ('client_name', 'contacts', 'default_max_age', 'client_uri', 'jwks', 'subject_type', 'initiate_login_uri'):
            if k in args and k in beh and args[k] != beh[k]:
                c.check(req.get(k) in (args[k], beh[k]), '%s of the registration request' % k, req)
            elif k in args or k in beh:
                c.equal(req.get(k), args.get(k, beh.get(k)), '%s of the registration request' % k)
            elif k not in ('contacts', 'jwks'):
                c.check(k not in req, '%s of the registration request' % k, req)
        c.check('collect_tokens' not in req and 'other' not in req, 'not about the registration', req)
        c.check(('jwks_uri' in req) != ('jwks' in req), 'jwks_uri and jwks', sorted(req))
        mine = set(all_uris(req))
        c.check(mine and not mine & uris, 'same URI registered with two issuers', sorted(mine & uris))
        uris |= mine
        c.ev('registration requests judged')
    c.seen('asked', tuple(sorted(args)), tuple(sorted(beh)))


def defaults(c, rng, i):
    """A handler that is told nothing but where it lives: it makes its own keys, publishes and registers the public part."""
    os.chdir(c.dir)
    base = rng.choice([world.BASE, 'https://rp.example.org/app', 'https://rp.example.org:8443'])
    path = rng.choice([None, None, 'keys/pub.json', '/keys/pub.json'])
    before = copy.deepcopy([DEFAULT_CLIENT_CONFIGS, DEFAULT_OIDC_SERVICES, DEFAULT_RP_KEY_DEFS])
    ops = [opmod.OP(c.net, gen_issuer(rng, k, 'close'), k, tag='op%d' % k) for k in range(2)]
    pub = None
    uris = {}
    for life in range(2):                   # the keys survive a restart
        h = RPHandler(base, **({} if path is None else {'jwks_path': path}))
        with open('static/jwks.json') as fp:
            have = json.load(fp)['keys']
        c.check(have and not any(x in k for k in have for x in ('d', 'p', 'q', 'dp', 'dq', 'qi', 'k')), 'private keys in the public file',
                lambda: [sorted(k) for k in have])
        c.equal(sorted((k['kty'], k['use']) for k in have), [('EC', 'sig'), ('RSA', 'sig')], 'keys made')
        with open('private/jwks.json') as fp:
            priv = json.load(fp)['keys']
        c.equal(sorted(k['kid'] for k in priv), sorted(k['kid'] for k in have), 'keys in the two files')
        c.check(all('d' in k for k in priv), 'no private keys in the private file')
        if pub is not None:
            c.equal(sorted(k['kid'] for k in have), pub, 'other keys after a restart')
        pub = sorted(k['kid'] for k in have)
        for o in ops:
            o.rp_jwks = {'keys': have}
            n0 = len(regs(c, o))
            s = world.begin(c, h, o)
            rr = regs(c, o)[n0:]
            c.equal(len(rr), 1, 'number of registrations')
            req = rr[0].info['req']
            c.equal(req.get('jwks_uri'), base.rstrip('/') + '/' + (path or 'static/jwks.json').lstrip('/'), 'jwks_uri')
            c.check('jwks' not in req, 'jwks_uri and jwks')
            c.equal(req['response_types'], ['code', 'id_token', 'id_token token', 'code id_token', 'code id_token token', 'code token'],
                    'registered response types')
            c.equal((req['application_type'], req['token_endpoint_auth_method'], sorted(req['grant_types'])),
                    ('web', 'client_secret_basic', ['authorization_code', 'implicit']), 'registered preferences')
            c.equal((s.req or o.read_authz(s.url))['scope'].split(), ['openid'], 'scope')
            c.check('code_challenge' in o.read_authz(s.url) and o.read_authz(s.url).get('code_challenge_method') == 'S256', 'PKCE is the default', s.url)
            world.answer(c, s)
            world.finalize(c, h, s)
            world.check_result(c, s)
            ctx = world.context(h, o)
            k = ctx.keyjar.get_signing_key('RSA', '')
            c.equal([x.kid for x in k], [x['kid'] for x in have if x['kty'] == 'RSA'], 'signing key of a client')
            for u in req['redirect_uris']:
                c.check(u.startswith(base + '/'), 'redirect_uri outside the base URL', u)
                c.check(u not in uris, 'same URI registered twice', u)
                uris[u] = o.issuer
            c.ev('registration requests judged')
    c.equal([DEFAULT_CLIENT_CONFIGS, DEFAULT_OIDC_SERVICES, DEFAULT_RP_KEY_DEFS], before, 'defaults changed')
    c.seen('defaults', base, path, tuple(o.issuer for o in ops))


def again(c, rng, i):
    """However a provider is named and whatever is asked for at the same time, there is one client and one registration."""
    os.chdir(c.dir)
    how = rng.choice(['any', 'close'])
    ops = [opmod.OP(c.net, gen_issuer(rng, k, how), k, tag='op%d' % k) for k in range(rng.randint(1, 3))]
    confs = {'': world.dynamic_conf(None, ['code', 'id_token'], rng.choice(world.AUTHS[:2]))}
    names = {}
    for k, o in enumerate(ops):
        names[o] = [o.issuer]
        if rng.random() < .5:
            confs[o.issuer] = world.dynamic_conf(o, ['code'], rng.choice(world.AUTHS[:2]))
        for a in range(rng.choice([0, 1, 1, 2])):
            n = 'name%d%d' % (k, a)
            confs[n] = dict(world.dynamic_conf(o, ['code'], rng.choice(world.AUTHS[:2])), issuer=o.issuer)
            names[o].append(n)
    h = world.handler(confs)
    clients, sess, done = {}, [], []
    for _ in range(rng.randint(4, 12)):
        o = rng.choice(ops)
        op = rng.choice(['begin', 'begin', 'begin', 'user', 'setup', 'register', 'login', 'login', 'logout', 'refused', 'wait'])
        kw = {}
        if rng.random() < .5:
            kw['behaviour_args'] = rng.choice([{}, {'collect_tokens': True}, {'client_name': 'x'}, {'response_types': ['code']}])
        had = o.issuer in h.issuer2rp
        n0 = len(c.net.log)
        if op == 'begin':
            if rng.random() < .3:
                kw['req_args'] = {'prompt': 'login'}
            sess.append(world.begin(c, h, o, key=rng.choice(names[o]), **kw))
        elif op == 'user' and [x.issuer.split('/')[2] for x in ops].count(o.issuer.split('/')[2]) == 1:
            r = h.begin(user_id='joe@' + o.issuer.split('/')[2], **kw)
            sess.append(world.Sess(o, o.issuer, r['state'], r['url']))
        elif op == 'setup':
            cl = h.client_setup(rng.choice(names[o]), **kw)
            c.check(cl is h.issuer2rp.get(o.issuer), 'client_setup returned another client')
        elif op == 'register' and had:
            h.do_client_registration(h.issuer2rp[o.issuer], o.issuer, **kw)
        elif op == 'login' and sess:
            s = sess.pop(rng.randrange(len(sess)))
            world.answer(c, s)
            world.finalize(c, h, s)
            world.check_result(c, s)
            if 'code' in s.req['response_type'].split():
                t = [r for r in c.net.log[n0:] if r.endpoint == 'token_endpoint'][0].info['auth']
                c.equal((t['client_id'], t['ok']), (s.req['client_id'], True), 'client that redeemed the code')
        elif op == 'refused' and sess:
            c.refused(lambda: h.finalize(sess[0].op.issuer, {'state': 'unknown', 'code': 'x'}), 'unknown state accepted')
        elif op == 'wait':
            CLOCK.advance(rng.randint(1, 5000))
        done.append(op)
        for p in ops:
            n = len(regs(c, p))
            if p.issuer in h.issuer2rp:
                c.equal(n, 1, 'number of registrations', (p.tag, done))
                cl = clients.setdefault(p.issuer, h.issuer2rp[p.issuer])
                c.check(h.issuer2rp[p.issuer] is cl, 'the client was replaced', done)
                c.equal([cl.get_client_id()], list(p.clients), 'client_id')
            else:
                c.equal(n, 0, 'number of registrations', (p.tag, done))
        c.ev('operations followed by a count of registrations')
        c.seen('again', op, had, tuple(sorted(kw.get('behaviour_args') or ())), len(names[o]), o.issuer in confs)
    c.equal(sorted(h.issuer2rp), sorted(clients), 'clients')


def separate(c, rng, i):
    """Call-back URIs are a provider's own, however much its name looks like another's."""
    base = rng.choice([world.BASE, 'https://rp.example.org/app'])
    seed = rng.choice([b'BabyHoldOn', world.rndtext(rng, 12).encode('utf-8')])
    name = rng.choice(['https://op.example.com', 'https://multi.example.net/t1', 'https://o.example.org:8443/x'])
    alike = [name, name + '/', name + '//', name.upper(), name.title(), name + '?', name + '#', name + '%2F', name + ' ', ' ' + name,
             name.replace('https', 'http'), name.replace('op', 'o%70'), name + ':443', name + '/.', name + '/t', name[:-1],
             name.replace('e', '\u0435'), name + '1', name.replace('//', '//www.'), name + '/' + rng.choice('abc'), name + '\u00e9',
             name + 'e\u0301']
    alike = sorted(set(alike))
    rng.shuffle(alike)
    kinds = dict(code=True, implicit=rng.random() < .5, form_post=rng.random() < .5, request_uris=rng.random() < .5,
                 backchannel_logout_uri=rng.random() < .5, frontchannel_logout_uri=rng.random() < .5)
    seen = {}
    for iss in alike:
        res = create_callbacks(iss, seed, base, **kinds)
        c.equal(create_callbacks(iss, seed, base, **kinds), res, 'call-back URIs of the same provider')
        for k, v in res.items():
            for uri in v if isinstance(v, list) else [v]:
                c.check(seen.setdefault(uri, (iss, k)) == (iss, k), 'two providers, or uses, with the same call-back URI', (uri, seen[uri], (iss, k)))
                c.check(k == '__hex' or uri.startswith(base + '/'), 'call-back URI elsewhere', uri)
    other = create_callbacks(name, seed + b'x', base, **kinds)
    c.check(other['code'] not in seen, 'call-back URIs that another installation has too', other)
    c.ev('issuers whose URIs were compared', len(alike))
    c.seen('separate', name, tuple(sorted(k for k, v in kinds.items() if v)))


def run(r):
    r.cases('separate', 10, separate, thorough=300)
    r.cases('again', 40, again, thorough=2000)
    r.cases('defaults', 8, defaults, thorough=200)
    r.cases('asked', 40, asked, thorough=1500)
    r.cases('direct', 60, direct, thorough=3000)
    r.cases('restart', 40, restart, thorough=1500)
    r.cases('registration', 250, main, thorough=10000)
    r.cases('secret', 40, secret_key, thorough=1000)
    r.cases('failing', 50, failing, thorough=1500)
