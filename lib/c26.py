"""C26: a configuration is read as written, whatever its form.

Oracle: the dictionary the configuration was made from, with a few lines of model for place holders, base path and
defaults; for what configures the transport: what the transport monitor and a TLS hand-shake (in memory) show.
"""
import copy
import importlib
import json
import logging
import os
import random
import ssl
import sys
import warnings

import yaml

import op as opmod
import world as W
from core import short
from vclock import CLOCK

from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import init_key_jar
from oidcmsg.configure import create_from_config_file
import oidcrp.logging
from oidcrp import util
from oidcrp.configure import Configuration, RPConfiguration
from oidcrp.oauth2 import Client, add_on
from oidcrp.oidc import RP
from oidcrp.rp_handler import RPHandler

for _v in ('REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE'):
    os.environ.pop(_v, None)

URI_KEYS = ('redirect_uris', 'post_logout_redirect_uris', 'post_logout_redirect_uri', 'frontchannel_logout_uri',
            'backchannel_logout_uri', 'issuer', 'base_url')
FILE_KEYS = ('server_key', 'server_cert', 'private_path', 'public_path', 'jwks_file')
NAMES = ['rp.example.org', 'localhost', 'rp-1.internal', '10.0.0.7', 'xn--bcher-kva.example']


def uri(rng, tail):
    return rng.choice(['https://{domain}:{port}', 'https://{domain}:{port}', 'https://{domain}', 'https://fixed.example.com:{port}',
                       'https://fixed.example.com']) + tail


def gen(rng):
    conf = {'base_url': uri(rng, rng.choice(['', '', '/rp']))}
    if rng.random() < .7:
        conf['domain'] = rng.choice(NAMES)
    if rng.random() < .7:
        conf['port'] = rng.choice([443, 8090, 8443, 65535])
    clients = {}
    for k in rng.sample(['', 'bobcat', 'flop', 'åäö', 'a.b'], rng.randint(1, 4)):
        cl = {'client_preferences': {'scope': ['openid', rng.choice(['email', 'profile'])], 'application_name': W.rndtext(rng, 6, 'abc åäö{}"\'#: -')}}
        if k:
            cl['issuer'] = rng.choice(['https://op.example.com/' + rng.choice('abc'), 'https://{domain}/op'])
            cl['client_id'] = W.rndtext(rng, 8, 'abcXYZ019')
            cl['client_secret'] = W.rndtext(rng, 20)
            cl['redirect_uris'] = [uri(rng, '/authz_cb/%d' % i) for i in range(rng.randint(1, 3))]
            for n in ('post_logout_redirect_uris', 'post_logout_redirect_uri', 'frontchannel_logout_uri', 'backchannel_logout_uri'):
                if rng.random() < .5:
                    cl[n] = uri(rng, '/' + n) if not n.endswith('s') else [uri(rng, '/x/%d' % i) for i in range(rng.randint(1, 2))]
            if rng.random() < .3:
                cl['provider_info'] = {'issuer': cl['issuer'], 'authorization_endpoint': 'https://op.example.com/authz',
                                       'note': '{domain} is not a URI of the client'}
            cl['add_ons'] = {'pkce': {'function': 'oidcrp.oauth2.add_on.pkce.add_support', 'kwargs': {'code_challenge_length': 64}}}
        else:
            cl['redirect_uris'] = None
        clients[k] = cl
    conf['clients'] = clients
    if rng.random() < .8:
        conf['services'] = W.services()
    if rng.random() < .7:
        conf['httpc_params'] = rng.choice([{'verify': False}, {'verify': True}, {'verify': '/etc/ca.pem'}, {'verify': False, 'timeout': 7},
                                           {'cert': ['/c.pem', '/k.pem'], 'verify': True}])
    if rng.random() < .5:
        conf['hash_seed'] = W.rndtext(rng, 16)
    if rng.random() < .8:
        conf[rng.choice(['rp_keys', 'rp_keys', 'oidc_keys'])] = {
            'private_path': rng.choice(['private/jwks.json', '/abs/private.json', 'p.json']),
            'public_path': rng.choice(['static/jwks.json', '/abs/public.json']), 'read_only': rng.random() < .5,
            'key_defs': [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}]}
    conf['webserver'] = {'port': 8090, 'domain': '{domain}', 'server_cert': rng.choice(['certs/cert.pem', '/abs/cert.pem']),
                         'server_key': 'certs/key.pem', 'debug': rng.random() < .5}
    return conf


def expect(conf, domain, port, base):
    """The same with place holders and file names resolved."""
    if isinstance(conf, dict):
        res = {}
        for k, v in conf.items():
            if k in URI_KEYS and v:
                res[k] = [x.replace('{domain}', domain).replace('{port}', str(port)) for x in v] if isinstance(v, list) else \
                    v.replace('{domain}', domain).replace('{port}', str(port))
            elif k in FILE_KEYS:
                res[k] = os.path.abspath(os.path.join(base, v))
            else:
                res[k] = expect(v, domain, port, base)
        return res
    return conf


def norm(v):
    """File names made absolute, for comparison."""
    if isinstance(v, dict):
        return {k: os.path.abspath(x) if k in FILE_KEYS else norm(x) for k, x in v.items()}
    return v


def f_read(c, rng, i):
    conf = gen(rng)
    a_domain = rng.choice(NAMES) if rng.random() < .4 else None
    a_port = rng.choice([4433, 9000]) if rng.random() < .4 else None
    shape = rng.choice(['plain', 'plain', 'whole', 'part'])
    base = rng.choice(['', c.dir, 'rel', 'rel/sub'])
    how = rng.choice(['yaml', 'json', 'dict'])
    domain = a_domain or conf.get('domain') or '127.0.0.1'
    port = a_port or conf.get('port') or 80
    want = expect(copy.deepcopy(conf), domain, port, base) if base else expect(copy.deepcopy(conf), domain, port, os.getcwd())
    up = []
    given = {}
    for k, v in conf.items():
        # place holders are only looked for under the lower case name
        if k not in ('domain', 'port', 'base_url') and rng.random() < .3:
            up.append(k)
            given[k.upper()] = v
        else:
            given[k] = v
    if shape == 'part':
        top = {k: given.pop(k) for k in list(given) if k in ('domain', 'port') or k.lower() == 'webserver'}
        top['rp'] = given
        given = top
    kw = {}
    if a_domain:
        kw['domain'] = a_domain
    if a_port:
        kw['port'] = a_port
    if base:
        kw['base_path'] = base
    cls = RPConfiguration
    if shape != 'plain':
        cls = rng.choice([Configuration, Configuration, RPConfiguration])
        kw['entity_conf'] = [{'class': RPConfiguration, 'attr': 'rp', **({'path': ['rp']} if shape == 'part' else {})}]
    c.log('read', shape=shape, how=how, kw=kw, up=up, conf=given)

    def load():
        if how == 'dict':
            return cls(copy.deepcopy(given), **kw)
        fn = os.path.join(c.dir, 'conf.' + how)
        with open(fn, 'w', encoding='utf-8') as f:
            if how == 'yaml':
                yaml.safe_dump(given, f, allow_unicode=rng.random() < .5)
            else:
                json.dump(given, f)
        return create_from_config_file(cls, filename=fn, **kw)

    random.seed(c.i)
    r = load()
    rp = r if shape == 'plain' else r.rp
    c.ev('configurations read')
    c.equal(rp.base_url, want['base_url'], 'base URL is not as configured')
    got = norm(json.loads(json.dumps(rp.clients)))
    c.equal(got, norm(want['clients']), 'clients are not as configured', lambda: 'differing: %s' % short(
        {k: (got.get(k), want['clients'].get(k)) for k in want['clients'] if got.get(k) != want['clients'].get(k)}, 900))
    c.equal(rp.services, want.get('services'), 'services are not as configured')
    c.equal(norm(rp.key_conf), norm(want.get('rp_keys') or want.get('oidc_keys')), 'key configuration is not as configured')
    c.equal(rp.httpc_params, want.get('httpc_params') or {'verify': True}, 'HTTP parameters are not as configured')
    if cls is Configuration:
        c.equal(norm(r.web_conf), norm(want['webserver']), 'web server configuration is not as configured')
    if 'hash_seed' in conf:
        c.equal(rp.hash_seed, conf['hash_seed'], 'hash seed is not the configured one')
    else:
        random.seed(c.i)
        r2 = load()
        s1, s2 = rp.hash_seed, (r2 if shape == 'plain' else r2.rp).hash_seed
        c.check(isinstance(s1, str) and len(s1) >= 32 and len(set(s1)) > 8, 'generated hash seed is too simple', s1)
        c.check(s1 != s2, 'two configurations got the same hash seed', s1)
        c.run.seeds = getattr(c.run, 'seeds', set())
        c.check(s1 not in c.run.seeds and s2 not in c.run.seeds, 'a hash seed was used before', s1)
        c.run.seeds |= {s1, s2}
        c.ev('generated hash seeds')
    c.seen(shape, how, bool(base), base[:1] == '/', bool(a_domain), bool(a_port), 'domain' in conf, 'port' in conf, tuple(sorted(up)))


def f_flow(c, rng, i):
    """From the file to requests."""
    o = opmod.OP(c.net, 'https://op.example.com', 1, tag='op')
    o.rp_jwks = W.rp_public_jwks()
    conf = {'base_url': 'https://{domain}:{port}', 'domain': 'rp.example.org', 'port': 8443, 'services': W.services(),
            'rp_keys': {'private_path': 'private/jwks.json', 'public_path': 'static/jwks.json', 'read_only': False,
                        'key_defs': [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}]}}
    if rng.random() < .8:
        conf['httpc_params'] = rng.choice([{'verify': False}, {'verify': '/etc/our-ca.pem'}, {'verify': True, 'timeout': 9}])
    secret = 'configured-secret-0123456789-abcdef'
    static = rng.random() < .5
    auth = rng.choice(['client_secret_basic', 'client_secret_post', 'private_key_jwt'])
    alg = {'token_endpoint_auth_signing_alg': 'ES256'} if auth == 'private_key_jwt' else {}
    if static:
        info = {k: v for k, v in o.md.items() if k.endswith('_endpoint') or k == 'issuer'}
        place = rng.choice(['provider_info', 'keys', 'key_conf'])
        keys = {'url': {o.issuer: o.md['jwks_uri']}}
        if place == 'provider_info':
            info['keys'] = keys
        conf['clients'] = {'op': {'issuer': o.issuer, 'client_id': 'configured', 'client_secret': secret,
                                  'redirect_uris': ['https://{domain}:{port}/cb/op'], 'provider_info': info,
                                  'behaviour': {'response_types': ['code'], 'scope': ['openid'], 'token_endpoint_auth_method': auth, **alg}}}
        if place != 'provider_info':
            conf['clients']['op'][place] = keys
    else:
        place = None
        conf['clients'] = {'': {'client_preferences': {'application_type': 'web', 'response_types': ['code'], 'scope': ['openid'],
                                                       'token_endpoint_auth_method': [auth], **alg}, 'redirect_uris': None}}
    if rng.random() < .5:
        conf = {k if k == 'base_url' or k in ('domain', 'port') or rng.random() < .5 else k.upper(): v for k, v in conf.items()}
    how = rng.choice(['yaml', 'json'])
    fn = os.path.join(c.dir, 'conf.' + how)
    with open(fn, 'w') as f:
        f.write(yaml.safe_dump(conf) if how == 'yaml' else json.dumps(conf))
    cwd = os.getcwd()
    os.chdir(c.dir)
    try:
        nested = rng.random() < .5
        base = rng.choice(['etc', c.dir])
        os.makedirs(os.path.join(base, 'private'), exist_ok=True)
        os.makedirs(os.path.join(base, 'static'), exist_ok=True)
        if nested:
            rp = create_from_config_file(Configuration, entity_conf=[{'class': RPConfiguration, 'attr': 'rp'}], filename=fn, base_path=base).rp
        else:
            rp = create_from_config_file(RPConfiguration, filename=fn, base_path=base)
        kj = init_key_jar(**rp.key_conf)
        c.check(os.path.exists(os.path.join(base, 'private/jwks.json')), 'private keys are not where the configuration says',
                lambda: short([os.path.join(a, x) for a, b, d in os.walk('.') for x in d]))
        with open(os.path.join(base, 'static/jwks.json')) as f:
            pub = json.load(f)
        h = RPHandler(rp.base_url, rp.clients, services=rp.services, hash_seed=rp.hash_seed, keyjar=kj, jwks_path='static/jwks.json',
                      httpc_params=rp.httpc_params)
    finally:
        os.chdir(cwd)
    o.rp_jwks = pub
    if static:
        o.add_client('configured', secret, ['https://rp.example.org:8443/cb/op'], pub)
    c.log('flow', static=static, nested=nested, conf=conf)
    s = W.begin(c, h, o, key='op' if static else None)
    W.answer(c, s)
    W.finalize(c, h, s)
    c.check(s.req['redirect_uri'].startswith('https://rp.example.org:8443/'), 'redirect URI is not under the configured domain', s.req['redirect_uri'])
    want = [v for k, v in conf.items() if k.lower() == 'httpc_params']
    want = want[0]['verify'] if want else True
    n = 0
    for rec in c.net.log:
        c.equal(rec.verify, want, 'certificate verification is not as configured', rec.url)
        n += 1
    c.ev('requests with configured settings', n)
    c.check(n > 0, 'no requests', '')
    c.check(any(rec.url == o.md['jwks_uri'] for rec in c.net.log), 'the keys of the provider are not fetched', '')
    c.seen(static, place, nested, how, str(want), auth, base[:1] == '/')


def f_keys(c, rng, i):
    """Where the keys of a client, and of others, are."""
    n = rng.randint(0, 2)
    files, mods = [], []
    for k in range(n):
        pem, key = rsapem(k if rng.random() < .7 else 2)
        fn = os.path.join(c.dir, 'k%d.pem' % k)
        with open(fn, 'w') as f:
            f.write(pem)
        files.append(fn)
        mods.append(key)
    ops = [opmod.OP(c.net, 'https://op%d.example.com' % k, k + 1, tag='op%d' % k) for k in range(rng.randint(0 if n else 1, 2))]
    spec = {}
    if n:
        spec['file'] = {'rsa': files}
    if ops:
        spec['url'] = {o.issuer: o.md['jwks_uri'] for o in ops}
    if rng.random() < .5:
        spec = dict(reversed(list(spec.items())))
    conf = {'client_id': 'cid', rng.choice(['keys', 'key_conf']): spec}
    secret = rng.choice([None, 'a-secret-of-the-client-0123456789'])
    if secret:
        conf['client_secret'] = secret
    verify = rng.choice([None, False, '/etc/our-ca.pem'])
    cls = rng.choice([RP, Client])
    before = copy.deepcopy(conf)
    cl = cls(config=conf, httpc_params=None if verify is None else {'verify': verify})
    c.equal(conf, before, 'the configuration is changed')
    kj = cl.client_get('service_context').keyjar
    own = kj.get_issuer_keys('') if n or secret else []
    c.equal(sorted(k.kty for k in own), sorted(['RSA'] * n + ['oct'] * bool(secret)), 'own keys')
    got = sorted(k.public_key().public_numbers().n for k in own if k.kty == 'RSA')
    c.equal(got, sorted(mods), 'own keys are not those of the files')
    for k in own:
        if k.kty == 'RSA':
            c.check(k.private_key() is not None and k.use == 'sig', 'own key without a private part', '')
            tok = JWS('msg', alg='RS256').sign_compact([k])
            c.equal(JWS().verify_compact(tok, [k]), 'msg', 'signature with own key')
    for o in ops:
        ks = kj.get_issuer_keys(o.issuer)
        c.equal(sorted(k.kid for k in ks), sorted(k['kid'] for k in o.jwks()['keys']), 'keys of another')
    c.equal(sorted(r.url for r in c.net.log), sorted(o.md['jwks_uri'] for o in ops), 'requests for keys')
    for rec in c.net.log:
        c.equal(rec.verify, True if verify is None else verify, 'certificate verification is not as configured', rec.url)
    c.ev('keys from files and URLs', len(own) + len(ops))
    c.seen(n, len(ops), cls.__name__, str(verify), bool(secret), tuple(spec))


def names(rng):
    return rng.choice(['verify', 'hash_seed', 'a', 'x_y', 'clients'])


def f_functions(c, rng, i):
    k = rng.choice(['http', 'lou', 'replace', 'set', 'import', 'files', 'addons', 'config'])
    c.log('function', k=k)
    if k == 'http':
        conf = {}
        for n, vs in (('verify', [True, False, '/ca.pem', None]), ('verify_ssl', [True, False]), ('client_cert', ['/c.pem', '']),
                      ('client_key', ['/k.pem', '']), ('other', [1])):
            if rng.random() < .5:
                conf[n] = rng.choice(vs)
        v = conf.get('verify')
        if v is None:
            v = conf.get('verify_ssl', True)
        want = {'verify': v}
        if conf.get('client_cert'):
            want['cert'] = (conf['client_cert'], conf['client_key']) if conf.get('client_key') else conf['client_cert']
        before = copy.deepcopy(conf)
        c.equal(util.get_http_params(conf), want, 'HTTP parameters are not as configured', short(conf))
        c.equal(conf, before, 'configuration changed')
        c.seen(k, tuple(sorted((a, str(b)) for a, b in conf.items())))
    elif k == 'lou':
        n = names(rng)
        conf, val = {}, rng.choice(['v', 'w', ['x'], {'y': 1}, 7, True])
        where = rng.choice(['lower', 'upper', 'both', 'none'])
        if where in ('lower', 'both'):
            conf[n] = val
        if where == 'upper':
            conf[n.upper()] = val
        if where == 'both':
            conf[n.upper()] = 'not this'
        conf['zz'] = 'something else'
        ask = rng.choice([n, n.upper(), n.title()])
        d = rng.choice([None, {'verify': True}, 'dflt'])
        got = util.lower_or_upper(conf, ask, d) if d is not None or rng.random() < .5 else util.lower_or_upper(conf, ask)
        c.equal(got, d if where == 'none' else val, 'parameter is not as configured', 'where=%s default=%r' % (where, d))
        c.seen(k, where, d is None)
    elif k == 'replace':
        n = names(rng)
        lst = rng.random() < .5
        one = [rng.choice(['https://{domain}/a', 'plain', '{domain}', 'x']) for _ in range(rng.randint(1, 3))]
        val = one if lst else one[0]
        where = rng.choice(['lower', 'upper', 'none'])
        conf = {'zz': '{domain}'}
        if where == 'lower':
            conf[n] = copy.copy(val)
        elif where == 'upper':
            conf[n.upper()] = copy.copy(val)
        kw = rng.choice([{}, {'domain': 'rp.example.org'}])
        util.replace(conf, rng.choice([n, n.upper()]), **kw)
        want = {'zz': '{domain}'}
        if where != 'none':
            f = (lambda x: x.replace('{domain}', 'rp.example.org')) if kw else (lambda x: x)
            want[n] = [f(x) for x in val] if lst else f(val)
        c.equal(conf, want, 'configuration is not as expected after replace', short((where, val, kw)))
        c.seen(k, where, lst, bool(kw))
    elif k == 'set':
        class T:
            pass
        n = names(rng)
        val = rng.choice(['https://{domain}/a', 'plain', '{domain}'])
        where = rng.choice(['lower', 'upper', 'none'])
        conf = {'zz': 1}
        if where == 'lower':
            conf[n] = val
        elif where == 'upper':
            conf[n.upper()] = val
        kw = rng.choice([{}, {'domain': 'rp.example.org'}])
        before = dict(conf)
        t = T()
        util.set_param(t, conf, rng.choice([n, n.upper()]), **kw)
        c.equal(vars(t), {} if where == 'none' else {n: val.replace('{domain}', 'rp.example.org') if kw else val},
                'attribute is not as configured', short((where, val, kw)))
        c.equal(conf, before, 'configuration changed')
        c.seen(k, where, bool(kw))
    elif k == 'import':
        import oidcrp.oidc.userinfo
        import oidcrp.oauth2.add_on.pkce
        want = {'oidcrp.oidc.userinfo.UserInfo': oidcrp.oidc.userinfo.UserInfo, 'oidcrp.oidc.userinfo:UserInfo': oidcrp.oidc.userinfo.UserInfo,
                'oidcrp.oauth2.add_on.pkce.add_support': oidcrp.oauth2.add_on.pkce.add_support, 'json.dumps': json.dumps, 'os.path:join': os.path.join}
        n = rng.choice(sorted(want))
        c.check(util.importer(n) is want[n], 'another object was imported', n)
        bad = rng.choice(['UserInfo', '', 'oidcrp.oidc.userinfo.NoSuch', 'no_such_module.x', 'a:b:c', 'oidcrp.nosuch.X'])
        c.refused(lambda: util.importer(bad), 'an impossible name was imported', bad)
        o = rng.choice([{}, [], 'x', 5])
        m = rng.choice(['get', 'keys', 'append', '__doc__', 'nope', 'upper', 'real'])
        c.equal(util.has_method(o, m), callable(getattr(o, m, None)), 'has_method is wrong', short((o, m)))
        c.seen(k, n, bad)
    elif k == 'files':
        data = {}
        for i in range(rng.randint(1, 5)):
            data[rng.choice(['clients', 'A', 'PORT', 'x_1', 'base_url', 'flag', 'none'])] = rng.choice(
                [True, False, None, 1, 2.5, W.rndtext(rng), [1, True, None, W.rndtext(rng)], {'a': {W.rndtext(rng): [False, 'é']}}, {}, []])
        fn = os.path.join(c.dir, 'f.yaml')
        with open(fn, 'w', encoding='utf-8') as f:
            yaml.safe_dump(data, f, allow_unicode=True)
        c.equal(util.load_yaml_config(fn), data, 'YAML file read differently')
        c.equal(util.load_configuration(fn), data, 'YAML configuration read differently')
        ns = {}
        exec(util.yaml_to_py_stream(fn).read(), ns)
        ns.pop('__builtins__')
        c.equal(ns, data, 'YAML converted to Python is something else')
        fn = os.path.join(c.dir, 'f.json')
        with open(fn, 'w') as f:
            json.dump(data, f)
        c.equal(util.load_json(fn), data, 'JSON file read differently')
        bad = rng.choice(['f.json', 'f.txt', 'yaml', 'f.yaml.bak', ''])
        c.refused(lambda: util.load_configuration(bad), 'a file of unknown type was read', bad)
        c.refused(lambda: util.load_configuration(os.path.join(c.dir, 'missing.yaml')), 'a missing file was read')
        c.seen(k, tuple(sorted(str(type(v)) for v in data.values())), bad)
    elif k == 'config':
        name = 'verif_conf_%d_%d' % (c.i, rng.randint(0, 10 ** 9))
        cwd, path = os.getcwd(), list(sys.path)
        os.chdir(c.dir)
        try:
            with open(name + '.py', 'w') as f:
                f.write('PORT = 8090\nCLIENTS = {"a": {"issuer": "https://x"}}\n')
            importlib.invalidate_caches()
            m = util.load_configuration(name + '.py')
        finally:
            os.chdir(cwd)
            sys.path[:] = path
            sys.modules.pop(name, None)
        c.equal((m.PORT, m.CLIENTS), (8090, {'a': {'issuer': 'https://x'}}), 'Python configuration read differently')
        c.seen(k)
    else:
        calls = []
        import types
        mod = types.ModuleType('verif_c26_addons')
        want, spec = [], {}
        svc = {'authorization': object()}
        for i in range(rng.randint(0, 5)):
            n = 'f%d' % i

            def fn(services, _n=n, **kw):
                calls.append((_n, services, kw))
            setattr(mod, n, fn)
            kw = {a: W.rndtext(rng, 3) for a in rng.sample(['a', 'b', 'length'], rng.randint(0, 3))}
            spec['add%d' % i] = {'function': 'verif_c26_addons.' + n, 'kwargs': kw}
            want.append((n, svc, kw))
        sys.modules['verif_c26_addons'] = mod
        try:
            rng.choice([util.do_add_ons, add_on.do_add_ons])(spec, svc)
        finally:
            del sys.modules['verif_c26_addons']
        c.equal([(a, d) for a, _, d in calls], [(a, d) for a, _, d in want], 'add-ons are not set up as configured')
        c.check(all(b is svc for _, b, _ in calls), 'an add-on was given other services')
        c.seen(k, len(want))


# ---- TLS ----
CERTS = {}
PEMS = {}


def rsapem(k):
    if k not in PEMS:
        from cryptography.hazmat.primitives import serialization
        from cryptography.hazmat.primitives.asymmetric import rsa
        key = rsa.generate_private_key(65537, 2048)
        fmt = serialization.PrivateFormat.TraditionalOpenSSL if k % 2 else serialization.PrivateFormat.PKCS8
        PEMS[k] = (key.private_bytes(serialization.Encoding.PEM, fmt, serialization.NoEncryption()).decode(),
                   key.public_key().public_numbers().n)
    return PEMS[k]


def certs():
    """Server, two authorities, a client of each. Kept as PEM."""
    if CERTS:
        return CERTS
    import datetime
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.x509.oid import NameOID

    def make(cn, issuer=None, ca=False):
        key = ec.generate_private_key(ec.SECP256R1())
        name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])
        b = x509.CertificateBuilder().subject_name(name).issuer_name(issuer[2] if issuer else name).public_key(key.public_key()) \
            .serial_number(x509.random_serial_number()).not_valid_before(datetime.datetime(2001, 1, 1)) \
            .not_valid_after(datetime.datetime(2099, 1, 1)).add_extension(x509.BasicConstraints(ca=ca, path_length=None), True)
        cert = b.sign(issuer[1] if issuer else key, hashes.SHA256())
        pem = cert.public_bytes(serialization.Encoding.PEM).decode()
        kp = key.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()).decode()
        CERTS[cn] = (pem, kp)
        return pem, key, name

    make('server')
    for n in ('A', 'B'):
        ca = make('ca' + n, ca=True)
        make('client' + n, ca)
    return CERTS


def handshake(server, client):
    """Both ends in memory. Returns (what the server learned about the client, error)."""
    s_in, s_out, c_in, c_out = ssl.MemoryBIO(), ssl.MemoryBIO(), ssl.MemoryBIO(), ssl.MemoryBIO()
    so = server.wrap_bio(s_in, s_out, server_side=True)
    co = client.wrap_bio(c_in, c_out, server_hostname=None)
    done = {}
    for _ in range(20):
        for n, x in (('c', co), ('s', so)):
            if n in done:
                continue
            try:
                x.do_handshake()
                done[n] = True
            except ssl.SSLWantReadError:
                pass
            except ssl.SSLError as err:
                return None, err
            s_in.write(c_out.read())
            c_in.write(s_out.read())
        if len(done) == 2:
            break
    if len(done) != 2:
        return None, RuntimeError('no progress')
    # TLS 1.3: the server judges the certificate of the client after the client is done
    co.write(b'ping')
    s_in.write(c_out.read())
    try:
        if so.read(4) != b'ping':
            return None, RuntimeError('nothing arrived')
    except ssl.SSLError as err:
        return None, err
    return (so.getpeercert(True), co.getpeercert(True)), None


def f_tls(c, rng, i):
    cs = certs()
    d = c.dir
    for n, (pem, key) in cs.items():
        with open(os.path.join(d, n + '.pem'), 'w') as f:
            f.write(pem)
        with open(os.path.join(d, n + '.key'), 'w') as f:
            f.write(key)
    what = rng.choice(['none', 'optional', 'required', 'optional', 'required', 'unknown', 'nocert', 'nokey', 'bad', 'mismatch'])
    who = rng.choice([None, 'clientA', 'clientB'])
    ab = rng.random() < .5
    conf = {'server_cert': os.path.join(d, 'server.pem') if ab else 'server.pem', 'server_key': os.path.join(d, 'server.key') if rng.random() < .5 else 'server.key'}
    if what in ('optional', 'required', 'unknown'):
        conf['verify_user'] = what
    bundle = what in ('optional', 'required') and rng.random() < .85
    if bundle:
        conf['ca_bundle'] = os.path.join(d, 'caA.pem')
    if what == 'nocert':
        del conf['server_cert']
    if what == 'nokey':
        del conf['server_key']
    if what == 'bad':
        conf[rng.choice(['server_cert', 'server_key'])] = rng.choice(['missing.pem', 'clientA.key', 'caA.pem'])
    if what == 'mismatch':
        conf['server_key'] = 'clientA.key'
    if rng.random() < .4:
        conf = {k.upper() if rng.random() < .6 else k: v for k, v in conf.items()}
    c.log('tls', mode=what, who=who, conf=conf)
    err = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            ctx = util.create_context(d, copy.deepcopy(conf), **rng.choice([{}, {'protocol': ssl.PROTOCOL_TLS_SERVER}]))
        except (Exception, SystemExit) as e:
            err = e
    if what in ('unknown', 'bad', 'mismatch'):
        c.check(err is not None, 'an impossible TLS configuration was accepted', short(conf))
        c.seen(what)
        return
    if err is not None:
        raise err if isinstance(err, Exception) else RuntimeError('exit: %s' % err)
    if what in ('nocert', 'nokey'):
        c.equal(ctx, None, 'a TLS context without certificate or key')
        c.seen(what)
        return
    cl = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    cl.check_hostname = False
    cl.verify_mode = ssl.CERT_REQUIRED
    cl.load_verify_locations(os.path.join(d, 'server.pem'))
    if who:
        cl.load_cert_chain(os.path.join(d, who + '.pem'), os.path.join(d, who + '.key'))
    got, err = handshake(ctx, cl)
    if what == 'none':
        ok, seen = True, None
    elif who is None:
        ok, seen = what == 'optional', None
    else:
        ok, seen = bundle and who == 'clientA', who
    c.check((err is None) == ok, 'client certificate accepted' if err is None else 'client refused',
            'verify_user=%s client=%s bundle=%s: %r' % (what, who, bundle, err))
    c.ev('TLS hand-shakes')
    if ok:
        c.equal(got[1], ssl.PEM_cert_to_DER_cert(cs['server'][0]), 'the server shows another certificate')
        c.equal(got[0], ssl.PEM_cert_to_DER_cert(cs[seen][0]) if seen else None, 'the server sees another client certificate')
    c.seen(what, who, bundle, ok)


# ---- logging ----

def f_logging(c, rng, i):
    root = logging.getLogger()
    saved = (list(root.handlers), root.level, copy.deepcopy(oidcrp.logging.LOGGING_DEFAULT))
    lvl = rng.choice(['INFO', 'WARNING', 'ERROR'])
    conf = {'version': 1, 'disable_existing_loggers': False, 'handlers': {'h': {'class': 'logging.NullHandler'}},
            'root': {'handlers': ['h'], 'level': lvl}, 'loggers': {'verif.c26': {'level': rng.choice(['DEBUG', 'ERROR'])}}}
    debug = rng.random() < .5
    how = rng.choice(['dict', 'file', 'default'])
    kw = {}
    if how == 'dict':
        kw['config'] = copy.deepcopy(conf)
    elif how == 'file':
        kw['filename'] = os.path.join(c.dir, 'logging.yaml')
        with open(kw['filename'], 'w') as f:
            yaml.safe_dump(conf, f)
    else:
        kw['filename'] = os.path.join(c.dir, 'missing.yaml')
        lvl = 'INFO'
    if debug:
        kw['debug'] = True
    c.log('logging', how=how, debug=debug)
    try:
        lg = oidcrp.logging.configure_logging(**kw)
        c.check(lg is root, 'configure_logging returned another logger')
        c.equal(logging.getLevelName(root.level), 'DEBUG' if debug else lvl, 'log level is not as configured')
        c.equal([type(x).__name__ for x in root.handlers], ['NullHandler' if how != 'default' else 'StreamHandler'], 'log handlers are not as configured')
        if how != 'default':
            c.equal(logging.getLevelName(logging.getLogger('verif.c26').level), conf['loggers']['verif.c26']['level'], 'log level of a logger is not as configured')
        if how == 'dict':
            c.equal(kw['config'], conf, 'the logging configuration was changed')
        c.equal(oidcrp.logging.LOGGING_DEFAULT, saved[2], 'the default logging configuration was changed')
    finally:
        root.handlers[:], root.level = saved[0], saved[1]
        root.setLevel(saved[1])
        oidcrp.logging.LOGGING_DEFAULT.clear()
        oidcrp.logging.LOGGING_DEFAULT.update(saved[2])
    c.seen(how, debug, lvl)


def run(r):
    r.rule = ('A case is a configuration (or one helper that reads it) in one of its forms; what comes out is compared with what was '
              'written, and what it configures (requests at the transport, TLS hand-shakes in memory, log levels) with what is '
              'observed. Distinct by (form, nesting, base path, place holders, upper case names; function and input class; TLS set-up and client).')
    r.cases('read', 350, f_read, thorough=14000, share=.35)
    r.cases('flow', 60, f_flow, thorough=2000, share=.4)
    r.cases('keys', 60, f_keys, thorough=2000, share=.4)
    r.cases('functions', 400, f_functions, thorough=14000, share=.4)
    r.cases('tls', 60, f_tls, thorough=2000, share=.5)
    r.cases('logging', 40, f_logging, thorough=600)
