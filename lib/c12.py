"""C12: provider discovery only trusts the issuer that was asked."""
import copy
import json
import os

from oidcrp import oauth2 as o2

from cryptography.hazmat.primitives import serialization

import jose
import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

RULE = ('A case is a client that discovers (or is configured with) provider metadata: generated issuer identifiers, deviating '
        'issuers in the metadata, endpoints and key locations on arbitrary hosts, several issuers in one handler. The oracle '
        'watches every HTTP request that leaves and decides which keys ID Tokens may be signed with from the metadata alone. '
        'Non-trivial: a discovery answer whose fate was judged; distinct by (family, issuer shape, deviation, client type).')
ASSUMPTIONS = ['the static "keys" part of provider_info belongs to the static configuration']


def gen_issuer(rng, n=0):
    host = rng.choice(['op%d.example.com', 'login-%d.sub.example.org', '127.0.0.%d', 'xn--bcher-kva%d.example', 'o%d.example.net'])
    host = host % (n + 1)
    port = rng.choice(['', '', ':8443', ':443', ':80'])
    path = rng.choice(['', '', '/tenant', '/a/b/c', '/t%20x', '/realms/m-1.0~x', '/T/%C3%A5', '/x/.well-known', '/well;v=1'])
    slash = rng.choice(['', '', '/'])
    return 'https://' + host + port + path + slash


def shape(iss):
    p = iss[8:].split('/', 1)
    return (':' in p[0], len(p) > 1 and p[1].strip('/') != '', iss.endswith('/'))


def wk(issuer):
    return (issuer[:-1] if issuer.endswith('/') else issuer) + '/.well-known/openid-configuration'


def conf(rng, o, oauth=False, **kw):
    if oauth:
        rt = kw.pop('rt', 'code')
        cnf = world.static_conf(o, response_type=rt, svc=copy.deepcopy(world.OAUTH2_SERVICES), discovery=True, scope=['read'])
        cnf['behaviour'] = {'response_types': [rt], 'scope': ['read'], 'token_endpoint_auth_method': 'client_secret_basic'}
        cnf['client_preferences'] = {}
        return cnf
    kind = kw.pop('kind', None) or rng.choice(['dynamic', 'static+discovery'])
    rt = kw.pop('rt', None) or rng.choice(['code', 'id_token', 'code id_token', 'id_token token'])
    return world.gen_conf(rng, o, kind=kind, rt=rt, auth=rng.choice(world.AUTHS[:2]), **kw)[0]


def mk(confs, oauth, **kw):
    if oauth:
        kw['client_cls'] = o2.Client
    return world.handler(confs, **kw)


def discovery_requests(c):
    return [r for r in c.net.log if r.url.endswith('/openid-configuration')]


def complete(c, h, o, key=None):
    s = world.login(c, h, o, key)
    world.check_result(c, s)
    return s


# ---- where metadata comes from -------------------------------------------------
def wellknown(c, rng, i):
    os.chdir(c.dir)
    oauth = rng.random() < .3
    n = rng.randint(1, 3)
    ops, confs = [], {}
    for k in range(n):
        iss = gen_issuer(rng, k)
        o = opmod.OP(c.net, iss, k, tag='op%d' % k)
        if oauth and rng.random() < .5:         # keys in the metadata
            o.hook['discovery'] = lambda rec, res, o=o: jresp(dict({k: v for k, v in o.md.items() if k != 'jwks_uri'}, jwks=o.jwks()))
        ops.append((o, iss))
    shared = not oauth and n > 1 and rng.random() < .4
    for o, iss in ops:
        if shared:
            confs[''] = world.dynamic_conf(None, ['code'])
            o.rp_jwks = world.rp_public_jwks()
        else:
            confs[iss] = conf(rng, o, oauth)
            # the configured form may differ in a trailing slash
            if rng.random() < .3:
                confs[iss]['issuer'] = iss[:-1] if iss.endswith('/') else iss + '/'
    h = mk(confs, oauth)
    for o, iss in ops:
        n0 = len(c.net.log)
        s = world.begin(c, h, o, iss)
        d = [r for r in c.net.log[n0:] if r.url.endswith('/openid-configuration')]
        c.equal(len(d), 1, 'number of discovery requests', iss)
        c.equal((d[0].method, d[0].url, d[0].body), ('GET', wk(iss), b''), 'discovery request')
        c.check('authorization' not in d[0].headers, 'credentials in a discovery request', d[0].headers)
        c.equal(d[0].seq, n0, 'discovery is not the first request')
        world.answer(c, s)
        world.finalize(c, h, s)
        world.check_result(c, s)
        c.equal(world.context(h, o).issuer, o.issuer, 'issuer of the client')
        if 'discovery' in o.hook:
            kj = world.context(h, o).keyjar
            c.equal(sorted(k.kid for k in kj.get_issuer_keys(o.issuer)), sorted(k['kid'] for k in o.jwks()['keys']), 'keys in the metadata')
            c.check(not any(w not in ('', world.BASE, o.issuer, world.context(h, o).client_id) for w in kj.owners()), 'keys of someone else', kj.owners())
        c.seen('wellknown', shape(iss), oauth, shared, 'discovery' in o.hook)
    # later sessions don't ask again
    n0 = len(discovery_requests(c))
    for o, iss in ops:
        complete(c, h, o)
    c.equal(len(discovery_requests(c)), n0, 'metadata fetched again for a known issuer')


# ---- deviating issuers ---------------------------------------------------------
BAD = ['host', 'path', 'longer', 'shorter', 'http', 'case', 'port', 'query', 'fragment', 'other', 'dslash', 'space', 'user', 'dot', 'list',
       'num', 'null', 'dict', 'nul', 'rel', 'pct', 'sub', 'wk', 'evil-suffix', 'missing', 'empty', 'true']


def bad_issuer(rng, iss, how):
    b = iss.rstrip('/')
    host = b[8:].split('/')[0]
    rest = b[8 + len(host):]
    v = {'host': 'https://evil.example.net' + rest, 'path': b + '/other', 'longer': b + rng.choice('x0-'), 'shorter': b[:-1],
         'http': 'http' + b[5:], 'case': b[:8] + (b[8:].upper() if b[8:] != b[8:].upper() else b[8:].lower() + 'a'), 'port': 'https://' + host.split(':')[0] + ':9443' + rest,
         'query': b + '?x=1', 'fragment': b + '#f', 'other': 'https://other.example.net', 'dslash': b + '//', 'space': b + ' ',
         'user': 'https://u@' + host + rest, 'dot': b + '/.', 'list': [iss], 'num': 17, 'null': None, 'dict': {'iss': iss},
         'nul': b + '\x00', 'rel': b[6:], 'pct': b[:-1] + '%%%02X' % ord(b[-1]), 'sub': 'https://x.' + host + rest, 'wk': wk(iss),
         'evil-suffix': 'https://' + host + '.evil.example.net' + rest, 'missing': None, 'empty': '', 'true': True}[how]
    return v


def state_of(h, client):
    """What discovery may change in a client."""
    ctx = client.client_get('service_context')
    kj = {}
    for owner in list(ctx.keyjar.owners()):
        kj[owner] = [(b.source, sorted(json.dumps(k.serialize(), sort_keys=True) for k in b._keys))
                     for b in ctx.keyjar[owner]._bundles]
    return copy.deepcopy({
        'issuer': ctx.issuer, 'provider_info': world.plain(ctx.provider_info), 'behaviour': world.plain(ctx.behaviour),
        'client_id': ctx.client_id, 'client_secret': ctx.client_secret, 'redirect_uris': ctx.redirect_uris,
        'endpoints': {n: s.endpoint for n, s in client.client_get('services').items()}, 'keys': kj})


def mismatch(c, rng, i):
    how = BAD[i % len(BAD)]
    os.chdir(c.dir)
    oauth = rng.random() < .25
    iss = gen_issuer(rng)
    o = opmod.OP(c.net, iss, 0, tag='op0')
    evil = opmod.OP(c.net, 'https://other.example.net', 1, tag='evil')
    val = bad_issuer(rng, iss, how)
    on = [True]

    def dev(rec, res):
        if not on[0]:
            return res
        c.ev('deviating metadata sent')
        md = dict(o.md)
        for k, v in evil.md.items():
            if k.endswith('_endpoint') or k == 'jwks_uri':
                md[k] = v
        md['issuer'] = val
        if how == 'missing':
            del md['issuer']
        return jresp(md)
    o.hook['discovery'] = dev
    cnf = conf(rng, o, oauth)
    h = mk({iss: cnf}, oauth)
    first = rng.random() < .5
    if not first:
        on[0] = False
        s = complete(c, h, o)
        on[0] = True
        client = h.issuer2rp[o.issuer]
        before = state_of(h, client)
        n0 = len(c.net.log)
        c.refused(lambda: raise_error(client.do_request('provider_info')), 'metadata of another issuer accepted', (how, val))
        c.equal(state_of(h, client), before, 'refused metadata changed the client', how)
    else:
        n0 = len(c.net.log)
        c.refused(lambda: world.begin(c, h, o), 'metadata of another issuer accepted', (how, val))
        c.equal(list(h.issuer2rp), [], 'a client is registered after refused metadata', how)
    rest = c.net.log[n0:]
    c.check(all(r.url == wk(iss) for r in rest), 'refused metadata was used', lambda: [r.url for r in rest])
    c.seen('mismatch', how, oauth, first, shape(iss))
    on[0] = False
    s = complete(c, h, o)
    c.check(not any(r.op is evil for r in c.net.log), 'request sent to an endpoint from refused metadata')
    if not oauth:
        # and its keys are not used
        s = world.begin(c, h, o)

        def forge(resp, g):
            for k in ('id_token',):
                if k in resp:
                    hd, p, _, _ = jose.parts(resp[k])
                    resp[k] = jose.jws(p, 'RS256', evil.rsa)
            return resp
        world.answer(c, s, mutate=forge)
        o.hook['token_endpoint'] = lambda rec, res: sign_with(res, evil)
        c.refused(lambda: h.finalize(o.issuer, dict(s.resp)), 'keys from refused metadata used', how)


def sign_with(res, other):
    d = json.loads(res[2])
    if 'id_token' in d:
        hd, p, _, _ = jose.parts(d['id_token'])
        d['id_token'] = jose.jws(p, 'RS256', other.rsa)
    return jresp(d, res[0])


def raise_error(resp):
    if 'error' in resp:
        raise ValueError('error response')
    return resp


def allowed(c, rng, i):
    """An explicitly allowed mismatch."""
    os.chdir(c.dir)
    oauth = rng.random() < .5
    iss = gen_issuer(rng)
    o = opmod.OP(c.net, iss, 0, tag='op0')
    how = rng.choice(['host', 'path', 'longer', 'http' if oauth else 'host', 'other', 'sub', 'same'])
    val = iss if how == 'same' else bad_issuer(rng, iss, how)
    o.hook['discovery'] = lambda rec, res: jresp(dict(o.md, issuer=val))
    cnf = conf(rng, o, oauth, rt='code')
    cnf['allow'] = {'issuer_mismatch': True}
    h = mk({iss: cnf}, oauth)
    r = h.begin(iss)
    c.check(r['url'].startswith(o.md['authorization_endpoint']), 'endpoint of allowed metadata not used', r['url'])
    c.equal(o.read_authz(r['url'])['state'], r['state'], 'state')
    c.seen('allowed', how, oauth)
    c.equal(h.state2issuer(r['state']), iss, 'issuer of the session')
    c.check(h.get_client_from_session_key(r['state']) is h.issuer2rp[iss], 'client of the session')
    if oauth:
        s = world.login(c, h, o)
        c.equal(s.result['token'], s.grant['ats'][-1], 'access token')
    else:
        # the tokens still have to be those of the configured issuer
        s = complete(c, h, o)
        if s.grant['rts']:
            h.refresh_access_token(s.state)
        if how != 'same' and isinstance(val, str):
            s = world.begin(c, h, o)

            def claim(tok):
                hd, p, _, _ = jose.parts(tok)
                return jose.jws(dict(p, iss=val), 'RS256', o.rsa)

            def forge(resp, g):
                if 'id_token' in resp:
                    resp['id_token'] = claim(resp['id_token'])

            def tok(rec, res):
                d = json.loads(res[2])
                if 'id_token' in d:
                    d['id_token'] = claim(d['id_token'])
                return jresp(d, res[0])
            world.answer(c, s, mutate=forge)
            o.hook['token_endpoint'] = tok
            c.refused(lambda: raise_error(h.finalize(iss, dict(s.resp))), 'ID Token of another issuer accepted', (how, val))
            del o.hook['token_endpoint']
    c.equal(len(discovery_requests(c)), 1, 'metadata fetched again')
    # other explicit permissions do not allow this one
    cnf = conf(rng, o, oauth)
    cnf['allow'] = rng.choice([{}, {'http_links': True}, {'missing_kid': True}, {'issuer': True}, {'issuer_mismatch': False}])
    h = mk({iss: cnf}, oauth)
    if how != 'same':
        c.refused(lambda: h.begin(iss), 'mismatch accepted without permission', (how, cnf['allow']))


# ---- endpoints -----------------------------------------------------------------
EPS = ['authorization_endpoint', 'token_endpoint', 'userinfo_endpoint', 'registration_endpoint', 'end_session_endpoint']


def gen_ep(rng, name, k, query=True, plain=False):
    host = rng.choice(['op.example.com', 'api.example.com', 'other-%d.example.net' % k, 'h%d.example.org:8080' % rng.randint(0, 3)])
    path = rng.choice(['/', '/v%d/' % rng.randint(1, 3), '/a/b/', '/%20x/', '/e.php/']) + '%s-%d' % (name[:5], rng.randint(0, 999))
    q = rng.choice(['', '', '?tenant=a', '?x=1&y=%20z', '?k=%26%3D']) if query else ''
    scheme = 'http://' if plain and rng.random() < .2 else 'https://'
    return scheme + host + path + rng.choice(['', '', '/']) + q


def eps_case(c, rng, i):
    os.chdir(c.dir)
    n = rng.randint(1, 2)
    ops, confs = [], {}
    for k in range(n):
        md = {name: gen_ep(rng, name, k, plain=True) for name in EPS}
        if rng.random() < .3:       # decoys
            md['introspection_endpoint'] = 'https://decoy.example.com/introspection'
            md['revocation_endpoint'] = 'https://decoy.example.com/revoke'
            md['x_authorization_endpoint'] = 'https://decoy.example.com/authz'
            md['Token_endpoint'] = 'https://decoy.example.com/token'
            md['token_endpoint_'] = 'https://decoy.example.com/token'
        md['jwks_uri'] = 'https://keys%d.example.com/jwks' % k
        o = opmod.OP(c.net, gen_issuer(rng, k), k, tag='op%d' % k, md=md)
        kind = rng.choice(['static', 'dynamic', 'static+discovery'])
        cnf = conf(rng, o, False, kind=kind, rt=rng.choice(['code', 'code id_token', 'id_token token']))
        if kind == 'static':
            cnf['provider_info'].update({k: v for k, v in md.items() if '_endpoint' in k})
        ops.append((o, kind))
        confs[o.issuer] = cnf
    h = mk(confs, False)
    for o, kind in ops:
        if kind == 'static' and rng.random() < .5:
            # Static configuration, the provider offers something else to those that ask
            o.hook['discovery'] = lambda rec, res: jresp({'issuer': 'https://evil.example.net'})
        n0 = len(c.net.log)
        s = complete(c, h, o)
        if s.grant['rts']:
            h.refresh_access_token(s.state)
        h.get_user_info(s.state)
        lo = h.logout(s.state, post_logout_redirect_uri=world.BASE + '/bye')['url']
        base, _, q = o.md['end_session_endpoint'].partition('?')
        c.check(lo.startswith(o.md['end_session_endpoint'] + ('&' if q else '?')), 'end session endpoint', (lo, o.md[
            'end_session_endpoint']))
        want = {o.md[e] for e in ('token_endpoint', 'userinfo_endpoint', 'registration_endpoint')} | {o.md['jwks_uri'], wk(o.issuer)}
        used = set()
        for r in c.net.log[n0:]:
            c.check(r.url in want, 'request sent to something that is not a named endpoint', (r.method, r.url, sorted(want)))
            c.check(r.op is o, 'request of one issuer reached another', r.url)
            used.add(r.endpoint)
            c.equal(r.url, wk(o.issuer) if r.endpoint == 'discovery' else o.md[r.endpoint], 'endpoint used')
            c.ev('requests matched with the metadata')
        c.check('userinfo_endpoint' in used, 'no user info request seen')
        if kind == 'static':
            c.check('discovery' not in used, 'discovery done in spite of static provider info')
        c.check('registration_endpoint' in used if kind == 'dynamic' else 'registration_endpoint' not in used, 'registration', kind)
        c.seen('endpoints', kind, tuple(sorted(used)), '?' in o.md['token_endpoint'], '?' in o.md['userinfo_endpoint'])


def missing_ep(c, rng, i):
    """An endpoint that the metadata does not name is not made up."""
    os.chdir(c.dir)
    drop = rng.choice(['token_endpoint', 'userinfo_endpoint', 'registration_endpoint', 'end_session_endpoint'])
    kind = rng.choice(['static', 'dynamic', 'static+discovery']) if drop != 'registration_endpoint' else 'dynamic'
    o2nd = opmod.OP(c.net, 'https://second.example.org', 3, tag='op2')
    o = opmod.OP(c.net, gen_issuer(rng), 0, tag='op0', drop_md=[drop])
    rt = 'code' if drop == 'token_endpoint' else rng.choice(['code', 'code id_token', 'id_token token'])
    confs = {x.issuer: conf(rng, x, False, kind=kind, rt=rt) for x in (o, o2nd)}
    h = mk(confs, False)
    complete(c, h, o2nd)
    n0 = len(c.net.log)

    def whole():
        s = world.login(c, h, o)
        if drop == 'end_session_endpoint':
            h.logout(s.state, post_logout_redirect_uri=world.BASE + '/bye')
        elif drop == 'userinfo_endpoint':
            h.get_user_info(s.state)
    c.refused(whole, 'operation without an endpoint succeeded', (drop, kind))
    for r in c.net.log[n0:]:
        c.check(r.op is o and r.endpoint in ('discovery', 'jwks_uri', 'token_endpoint', 'userinfo_endpoint', 'registration_endpoint')
                and r.endpoint != drop, 'request to an endpoint nobody named', (drop, r.method, r.url))
    c.seen('missing', drop, kind, rt)


# ---- keys ----------------------------------------------------------------------
def keys(c, rng, i):
    """ID Tokens are verified with exactly the keys that the metadata of their issuer refers to."""
    os.chdir(c.dir)
    n = rng.randint(2, 3)
    ops, confs, how = [], {}, {}
    samehost = rng.random() < .4
    for k in range(n):
        iss = ('https://multi.example.com/t%d' % k) if samehost else gen_issuer(rng, k)
        o = opmod.OP(c.net, iss, k, tag='op%d' % k, md={'jwks_uri': 'https://keys.example.net/%d/jwks' % k if rng.random() < .5 else
                                                        iss.rstrip('/') + '/jwks.json'})
        kind = rng.choice(['dynamic', 'static+discovery', 'static', 'static-file', 'static-pem', 'embedded'])
        how[iss] = kind
        if kind == 'embedded':
            # not OpenID Connect, but the library understands it
            cnf = conf(rng, o, False, kind='static+discovery', rt='id_token')
            o.hook['discovery'] = lambda rec, res, o=o: jresp({k: v for k, v in dict(o.md, jwks=o.jwks()).items()
                                                               if k != 'jwks_uri' or rng.random() < 0})
            cnf['services']['discovery'] = {'class': 'oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery'}
            cnf['behaviour'] = {'response_types': ['id_token'], 'scope': ['openid'],
                                'token_endpoint_auth_method': 'client_secret_basic'}
        elif kind == 'static-file':
            cnf = conf(rng, o, False, kind='static', rt='id_token')
            fn = os.path.join(c.dir, 'op%d.jwks' % k)
            with open(fn, 'w') as f:
                json.dump(o.jwks(), f)
            cnf['provider_info']['keys'] = {'file': {'jwks': fn}}
        elif kind == 'static-pem':
            cnf = conf(rng, o, False, kind='static', rt='id_token')
            o.rsa = jose.Key('RSA', '', o.rsa.priv)      # there is no key ID in a PEM file
            fn = os.path.join(c.dir, 'op%d.pem' % k)
            with open(fn, 'wb') as f:
                # the key reader of the dependency only takes private keys
                f.write(o.rsa.priv.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8,
                                                 serialization.NoEncryption()))
            cnf['provider_info']['keys'] = {'file': {'rsa': fn}}
        else:
            cnf = conf(rng, o, False, kind=kind, rt=rng.choice(['id_token', 'code id_token', 'code']))
        ops.append(o)
        confs[iss] = cnf
    h = mk(confs, False)
    for o in ops:
        if rng.random() < .25 and how[o.issuer] != 'static-pem':
            # a key from earlier days that the deployment still has
            h.keyjar.import_jwks({'keys': [opmod.pool_key('RSA', 60).jwk()]}, o.issuer)
            how[o.issuer, 'old'] = True
    stranger = opmod.OP(c.net, 'https://stranger.example.net', 7, tag='str')
    rng.shuffle(ops)
    for rnd in range(2):
        for o in ops:
            complete(c, h, o)
            for r in c.net.log:
                if r.endpoint == 'jwks_uri':
                    c.equal(r.url, r.op.md['jwks_uri'], 'key location')
                    c.check(how[r.op.issuer] in ('dynamic', 'static+discovery', 'static'), 'keys fetched from a place nobody named', r.url)
        # tokens signed by the keys of the other issuers
        for o in ops:
            for other in [x for x in ops if x is not o] + [stranger]:
                s = world.begin(c, h, o)

                def sign(tok):
                    hd, p, _, _ = jose.parts(tok)
                    key = other.rsa
                    hdr = {'kid': rng.choice([key.kid, o.rsa.kid]) or None}
                    if rng.random() < .3:
                        hdr['jku'] = other.md['jwks_uri']
                    return jose.jws(p, 'RS256', key, headers=hdr)

                def forge(resp, g):
                    if 'id_token' in resp:
                        resp['id_token'] = sign(resp['id_token'])
                    return resp

                def tok(rec, res):
                    d = json.loads(res[2])
                    if 'id_token' in d:
                        d['id_token'] = sign(d['id_token'])
                    return jresp(d, res[0])
                world.answer(c, s, mutate=forge)
                o.hook['token_endpoint'] = tok
                c.refused(lambda: h.finalize(o.issuer, dict(s.resp)), 'ID Token signed with the key of another issuer accepted',
                          (how[o.issuer], other.tag))
                o.hook.pop('token_endpoint')
                c.ev('foreign keys tried')
                c.seen('keys', how[o.issuer], other is stranger, samehost)


def rotation(c, rng, i):
    """New keys at the place that the metadata names are found, and only there."""
    os.chdir(c.dir)
    o = opmod.OP(c.net, gen_issuer(rng), 0, tag='op0')
    other = opmod.OP(c.net, 'https://second.example.org', 1, tag='op1')
    kind = rng.choice(['dynamic', 'static+discovery', 'static'])
    rt = rng.choice(['id_token', 'code'])
    h = mk({x.issuer: conf(rng, x, False, kind=kind, rt=rt) for x in (o, other)}, False)
    complete(c, h, o)
    complete(c, h, other)
    new = opmod.pool_key('RSA', 9)
    old = o.rsa
    o.rsa = new
    CLOCK.advance(rng.randint(1, 2000))
    complete(c, h, o)
    complete(c, h, other)
    jw = [r for r in c.net.log if r.endpoint == 'jwks_uri']
    c.check(all(r.url == r.op.md['jwks_uri'] for r in jw), 'key location')
    c.check(sum(1 for r in jw if r.op is o) >= 2, 'new keys not fetched')
    s = world.begin(c, h, other)
    other_rsa, other.rsa = other.rsa, new
    world.answer(c, s)

    def tok(rec, res):
        return res
    other.rsa = new
    # the location still serves the genuine keys of the other issuer
    other.jwks = lambda: {'keys': [other_rsa.jwk(), other.ec.jwk()]}
    c.refused(lambda: h.finalize(other.issuer, dict(s.resp)), 'rotated key of another issuer accepted')
    c.seen('rotation', kind, rt)


def preload(c, rng, i):
    """With pre_load_keys the keys are there when the provider can no longer be asked for them."""
    os.chdir(c.dir)
    o = opmod.OP(c.net, gen_issuer(rng), 0, tag='op0')
    kind = rng.choice(['dynamic', 'static+discovery'])
    rt = rng.choice(['id_token', 'code', 'code id_token'])
    cnf = conf(rng, o, False, kind=kind, rt=rt)
    pre = rng.random() < .7
    cnf['services']['discovery']['kwargs'] = {'conf': {'pre_load_keys': pre}}
    h = mk({o.issuer: cnf}, False)
    world.begin(c, h, o)
    got = [r.url for r in c.net.log if r.endpoint == 'jwks_uri']
    if pre:
        c.check(o.md['jwks_uri'] in got, 'keys are not loaded beforehand', lambda: str(got))
    down = pre and rng.random() < .7
    if down:
        o.hook['jwks_uri'] = lambda rec, res: (503, {}, 'later')
    CLOCK.advance(rng.choice([0, 10, 200]))
    complete(c, h, o)
    c.seen('preload', pre, down, kind, rt)


def elsewhere(c, rng, i):
    """A configured discovery URL says where the metadata is, and thereby who the issuer is."""
    os.chdir(c.dir)
    oauth = rng.random() < .3
    o, other = [opmod.OP(c.net, gen_issuer(rng, k), k, tag='op%d' % k) for k in (0, 1)]
    for x in (o, other):
        x.rp_jwks = world.rp_public_jwks()
    rt = 'code' if oauth else rng.choice(['code', 'id_token', 'code id_token'])
    cnf = conf(rng, o, oauth, rt=rt)
    cnf['srv_discovery_url'] = o.issuer if rng.random() < .7 else (o.issuer[:-1] if o.issuer.endswith('/') else o.issuer + '/')
    had = rng.choice(['other', 'same', 'none', 'nowhere'])
    if had == 'none':
        cnf.pop('issuer', None)
    else:
        cnf['issuer'] = {'other': other.issuer, 'same': o.issuer, 'nowhere': 'https://nowhere.example'}[had]
    ocnf = conf(rng, other, oauth, rt=rt)
    h = mk({'named': cnf, 'other': ocnf}, oauth)
    for x, key in rng.choice([[(o, 'named'), (other, 'other')], [(other, 'other'), (o, 'named')]]):
        n0 = len(c.net.log)
        s = world.begin(c, h, x, key)
        c.equal(c.net.log[n0].url, wk(x.issuer), 'discovery request')
        for rec in c.net.log[n0:]:
            c.check(rec.op is x, 'request to another issuer', rec.url)
        world.answer(c, s)
        world.finalize(c, h, s)
        world.check_result(c, s)
        c.equal(world.context(h, x).issuer, x.issuer, 'issuer of the client')
    # metadata of another issuer at that place is refused
    n0 = len(c.net.log)
    bad = mk({'named': dict(cnf, srv_discovery_url=o.issuer)}, oauth)
    o.hook['provider_info'] = o.hook['discovery'] = lambda rec, res: (res[0], res[1], json.dumps(dict(o.md, issuer=other.issuer)))
    c.refused(lambda: bad.begin('named'), 'metadata of another issuer accepted', had)
    c.check(all(not r.op is other for r in c.net.log[n0:]), 'request to another issuer', '')
    c.ev('configured discovery URLs')
    c.seen('elsewhere', had, oauth, rt, cnf['srv_discovery_url'] == o.issuer)


def run(r):
    r.cases('wellknown', 100, wellknown, thorough=3000)
    r.cases('mismatch', 135, mismatch, thorough=5400)
    r.cases('allowed', 30, allowed, thorough=600)
    r.cases('endpoints', 100, eps_case, thorough=4000)
    r.cases('missing', 40, missing_ep, thorough=1000)
    r.cases('keys', 60, keys, thorough=2500)
    r.cases('rotation', 20, rotation, thorough=500)
    r.cases('elsewhere', 40, elsewhere, thorough=1000)
    r.cases('preload', 24, preload, thorough=500)
