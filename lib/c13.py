"""C13: client behaviour is negotiated within what the provider supports."""
import copy
import json
import os

import jose
import op as opmod
import world
from core import Violation, short
from net import jresp

RULE = ('A case is a client with generated preferences meeting generated provider metadata. A reference model, written from the '
        'OpenID Connect Discovery and Registration specifications, says what must be chosen or that the set-up must fail; it is '
        'compared with the registration request, the authorization request and the way the client authenticates, and with the '
        'behaviour that the client reports. Non-trivial: a negotiation that was judged; distinct by (preference, kind of '
        'overlap, outcome, client type).')
ASSUMPTIONS = ['a behaviour that is configured in parallel with the preferences is about other things than those that are negotiated']

SIG = ['RS256', 'RS384', 'RS512', 'ES256', 'ES384', 'ES512', 'PS256', 'PS512', 'HS256', 'HS512', 'none']
KE = ['RSA1_5', 'RSA-OAEP', 'RSA-OAEP-256', 'ECDH-ES', 'ECDH-ES+A128KW', 'A128KW', 'dir']
ENC = ['A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512', 'A128GCM', 'A256GCM']
ACR = ['urn:mace:incommon:iap:silver', '1', '2', 'loa-3', 'https://refeds.org/profile/mfa']
# preference: (metadata, universe, list valued)
PREFS = {
    'request_object_signing_alg': ('request_object_signing_alg_values_supported', SIG, False),
    'request_object_encryption_alg': ('request_object_encryption_alg_values_supported', KE, False),
    'request_object_encryption_enc': ('request_object_encryption_enc_values_supported', ENC, False),
    'userinfo_signed_response_alg': ('userinfo_signing_alg_values_supported', SIG, False),
    'userinfo_encrypted_response_alg': ('userinfo_encryption_alg_values_supported', KE, False),
    'userinfo_encrypted_response_enc': ('userinfo_encryption_enc_values_supported', ENC, False),
    'id_token_signed_response_alg': ('id_token_signing_alg_values_supported', SIG, False),
    'id_token_encrypted_response_alg': ('id_token_encryption_alg_values_supported', KE, False),
    'id_token_encrypted_response_enc': ('id_token_encryption_enc_values_supported', ENC, False),
    'default_acr_values': ('acr_values_supported', ACR, True),
    'subject_type': ('subject_types_supported', ['public', 'pairwise', 'ephemeral'], False),
    'token_endpoint_auth_method': ('token_endpoint_auth_methods_supported', world.AUTHS + ['tls_client_auth'], False),
    'token_endpoint_auth_signing_alg': ('token_endpoint_auth_signing_alg_values_supported', SIG[:-1], False),
    'response_types': ('response_types_supported', world.RT_ALL, True),
    'grant_types': ('grant_types_supported', ['authorization_code', 'implicit', 'refresh_token', 'client_credentials', 'urn:x:g'], True),
    'scope': ('scopes_supported', ['openid', 'profile', 'email', 'address', 'phone', 'offline_access', 'x'], True),
}
# what a provider that does not say supports
UNSAID = {'token_endpoint_auth_methods_supported': ['client_secret_basic'],
          'grant_types_supported': ['authorization_code', 'implicit']}
REQUIRED = ('response_types_supported', 'subject_types_supported', 'id_token_signing_alg_values_supported')
IN_REG = [p for p in PREFS if p not in ('scope', 'grant_types')]


def model(prefs, md):
    """What must be chosen: (behaviour, None) or (None, preference without anything in common)."""
    res = {}
    for pref, (prov, _, many) in PREFS.items():
        if pref not in prefs:
            continue
        want = prefs[pref]
        sup = md.get(prov, UNSAID.get(prov))
        if sup is None:
            sup = want if isinstance(want, list) else [want]
        common = [v for v in (want if isinstance(want, list) else [want]) if v in sup]
        if not common:
            return None, pref
        res[pref] = common if many and isinstance(want, list) else common[0]
    return res, None


def sample(rng, universe, lo=1):
    return rng.sample(universe, rng.randint(lo, min(len(universe), 4)))


def gen(rng, clash=None):
    md, prefs, kinds = {}, {}, {}
    for pref, (prov, uni, many) in PREFS.items():
        need = prov in REQUIRED
        says = need or rng.random() < .6
        if says:
            sup = sample(rng, uni)
            if pref == 'id_token_signed_response_alg' and 'RS256' not in sup:
                sup.insert(rng.randint(0, len(sup)), 'RS256')
            if pref == 'scope' and 'openid' not in sup:
                sup.append('openid')
            md[prov] = sup
        if rng.random() < .6 or pref in ('response_types', 'scope', 'token_endpoint_auth_method') or pref == clash:
            sup = md.get(prov, UNSAID.get(prov)) or uni
            if pref == clash:
                rest = [v for v in uni if v not in sup]
                if not rest:
                    md[prov] = [v for v in sup if v != 'ephemeral' and v != sup[-1]] or sup[:1]
                    if pref == 'id_token_signed_response_alg':
                        md[prov] = ['RS256']
                    rest = [v for v in uni if v not in md[prov]]
                want = sample(rng, rest)
                kinds[pref] = 'clash'
            else:
                want = sample(rng, uni)
                if not set(want) & set(sup):
                    want.insert(rng.randint(0, len(want)), rng.choice(sup))
                kinds[pref] = ('all' if set(want) <= set(sup) else 'some', says)
            if pref == 'response_types':
                want = [w for w in want if w not in ('token', 'none')] or want
            if not many and rng.random() < .3:
                want = [w for w in want if w in sup][:1] or want
                prefs[pref] = want[0]
            else:
                prefs[pref] = want
    for x in ('request_object', 'userinfo', 'id_token'):
        a, e = (x + '_encryption_alg', x + '_encryption_enc') if x == 'request_object' else (
            x + '_encrypted_response_alg', x + '_encrypted_response_enc')
        if (e in prefs) and a not in prefs and clash != e:
            # an encryption method without an algorithm is not a valid registration
            prefs.pop(e)
            kinds.pop(e)
    return prefs, md, kinds


OTHER = {'application_type': ['web', 'native'], 'contacts': [['a@x.org'], ['a@x.org', 'b@x.org']], 'client_name': ['Client & Co', 'x'],
         'default_max_age': [3600, 10], 'require_auth_time': [True, False], 'policy_uri': ['https://rp.example.org/pol'],
         'logo_uri': ['https://rp.example.org/logo.png'], 'initiate_login_uri': ['https://rp.example.org/login'],
         'tos_uri': ['https://rp.example.org/tos?x=1'], 'sector_identifier_uri': ['https://rp.example.org/sec.json'],
         'application_name': ['rphandler'], 'my_own': ['anything', ['a', 'b'], 7, {'a': 1}]}


def setup(c, rng, prefs, md, n=0, kind=None):
    base = {'id_token_signing_alg_values_supported': ['RS256'], 'subject_types_supported': ['public']}
    base.update(md)
    o = opmod.OP(c.net, 'https://op%d.example.com' % n, n, tag='op%d' % n, drop_md=[
        'token_endpoint_auth_methods_supported', 'grant_types_supported', 'scopes_supported'], md=None)
    o.md.update(base)
    kind = kind or rng.choice(['dynamic', 'dynamic', 'static+discovery'])
    if kind == 'dynamic':
        cnf = world.dynamic_conf(o)
        cnf['client_preferences'] = copy.deepcopy(prefs)
    else:
        cnf = world.static_conf(o, discovery=True)
        cnf['client_preferences'] = copy.deepcopy(prefs)
    return o, cnf, kind


def negotiate(c, rng, i):
    os.chdir(c.dir)
    n = rng.randint(1, 2)
    cases, confs = [], {}
    for k in range(n):
        prefs, md, kinds = gen(rng)
        other = {x: rng.choice(v) for x, v in OTHER.items() if rng.random() < .4}
        o, cnf, kind = setup(c, rng, dict(prefs, **other), md, k)
        if rng.random() < .4:
            # decided already
            cnf['behaviour'] = fixed = {x: rng.choice(v) for x, v in OTHER.items() if rng.random() < .4}
            other = dict(other, **copy.deepcopy(fixed))
            kinds['fixed'] = bool(fixed)
        confs[o.issuer] = cnf
        cases.append((o, cnf, kind, prefs, md, kinds, other, copy.deepcopy(cnf)))
    h = world.handler(confs)
    for o, cnf, kind, prefs, md, kinds, other, orig in cases:
        want, none = model(prefs, md)
        if want is None:
            c.refused(lambda: h.begin(o.issuer), 'set-up without common %s succeeded' % none, (prefs, md))
            c.seen('refused', none, kind)
            continue
        rt = want['response_types'][0]
        # starting a session needs a response type that there is a callback for
        client = h.client_setup(o.issuer)
        ctx = client.client_get('service_context')
        beh = world.plain(ctx.behaviour)
        for p, v in want.items():
            if p == 'token_endpoint_auth_method' and kind == 'dynamic':
                pass
            c.equal(beh.get(p), v, 'negotiated %s' % p, (prefs.get(p), md.get(PREFS[p][0])))
            c.seen('negotiated', p, kinds.get(p), isinstance(prefs[p], str), kind, kinds.get('fixed'))
            c.ev('preferences negotiated')
        c.equal(h.get_response_type(client), rt, 'response type the handler reports')
        c.equal(h.get_client_authn_method(client, 'token_endpoint'), want.get('token_endpoint_auth_method', ''),
                'authentication method the handler reports')
        for p in PREFS:
            if p not in prefs:
                c.check(p not in beh, 'behaviour that nobody asked for', (p, beh.get(p)))
        for p, v in other.items():
            c.equal(beh.get(p), v, 'other preference %s' % p)
        c.equal(cnf, orig, 'the configuration was changed')
        regs = [r for r in c.net.log if r.op is o and r.endpoint == 'registration_endpoint']
        if kind == 'dynamic':
            c.equal(len(regs), 1, 'number of registrations')
            req = regs[0].info['req']
            for p in IN_REG:
                if p in want:
                    c.equal(req.get(p), want[p], 'registered %s' % p)
                else:
                    a = p.replace('_enc', '_alg')
                    c.check(p not in req or p.endswith('_enc') and a in req, 'registered something that was not negotiated', (p, req.get(p)))
            for p, v in other.items():
                if p not in ('application_name', 'my_own'):
                    c.equal(req.get(p), v, 'registered %s' % p)
        else:
            c.equal(regs, [], 'static client registered')
        if rt in ('token', 'none') or (kind == 'dynamic' and rt not in world.RT_ALL):
            continue
        if 'request_object_encryption_alg' in want or 'request_object_signing_alg' in want:
            pass
        r = h.begin(o.issuer)
        q = o.read_authz(r['url'])
        c.equal(q.get('response_type'), rt, 'response type used')
        sc = q.get('scope', '').split()
        c.equal([x for x in sc if x != 'openid'], [x for x in want['scope'] if x != 'openid'], 'scope used')
        if rt == 'code' and want['token_endpoint_auth_method'] in world.AUTHS[:2]:
            # and the chosen way to authenticate is the one used
            if not any(x in want for x in ('id_token_encrypted_response_alg', 'userinfo_encrypted_response_alg')):
                s = world.Sess(o, o.issuer, r['state'], r['url'])
                o.idt_alg = want.get('id_token_signed_response_alg', 'RS256')
                if o.idt_alg in ('RS256', 'ES256', 'RS384') and 'userinfo_signed_response_alg' not in want:
                    world.answer(c, s)
                    world.finalize(c, h, s)
                    tr = [x for x in c.net.log if x.op is o and x.endpoint == 'token_endpoint']
                    c.equal(tr[-1].info['auth']['method'], want['token_endpoint_auth_method'], 'client authentication used')
                    c.seen('login', want['token_endpoint_auth_method'], o.idt_alg, kind)


def clash(c, rng, i):
    """Nothing in common: no client, no registration, others unaffected, and a later attempt can succeed."""
    names = [p for p in PREFS]
    pref = names[i % len(names)]
    os.chdir(c.dir)
    for _ in range(20):
        prefs, md, kinds = gen(rng, pref)
        if model(prefs, md)[0] is None:
            break
    c.check(model(prefs, md)[1] is not None, 'generator')
    o, cnf, kind = setup(c, rng, prefs, md)
    good = opmod.OP(c.net, 'https://good.example.com', 1, tag='good')
    h = world.handler({o.issuer: cnf, good.issuer: world.dynamic_conf(good)})
    order = rng.random() < .5
    if order:
        s = world.login(c, h, good)
    err = c.refused(lambda: h.begin(o.issuer), 'set-up without common %s succeeded' % pref, (prefs.get(pref), md.get(PREFS[pref][0])))
    c.equal(type(err).__name__, 'ConfigurationError', 'error for a failed negotiation', repr(err))
    c.check(o.issuer not in h.issuer2rp, 'client remains after a failed negotiation')
    c.check(all(r.endpoint in ('discovery', 'jwks_uri') for r in c.net.log if r.op is o), 'requests after a failed negotiation',
            lambda: [r.url for r in c.net.log])
    c.seen('clash', pref, kind, isinstance(prefs[pref], str))
    if not order:
        s = world.login(c, h, good)
    world.check_result(c, s)
    # the provider learns
    for p, (prov, uni, many) in PREFS.items():
        o.md[prov] = list(uni)
    o.md['token_endpoint_auth_signing_alg_values_supported'] = SIG[:-1]
    want, none = model(prefs, o.md)
    c.check(want is not None, 'generator (all)')
    client = h.client_setup(o.issuer)
    beh = world.plain(client.client_get('service_context').behaviour)
    for p, v in want.items():
        c.equal(beh.get(p), v, 'negotiated later %s' % p)


def shared(c, rng, i):
    """One default configuration, providers that support different things."""
    os.chdir(c.dir)
    prefs, _, kinds = gen(rng)
    ops = []
    for k in range(3):
        for _ in range(50):
            _, md, _ = gen(rng)
            if model(prefs, md)[0]:
                break
        else:
            continue
        o, _, _ = setup(c, rng, prefs, md, k)
        o.rp_jwks = world.rp_public_jwks()
        ops.append((o, md))
    cnf = world.dynamic_conf(None)
    cnf['client_preferences'] = copy.deepcopy(prefs)
    fixed = None
    if rng.random() < .5:
        fixed = cnf['behaviour'] = {x: rng.choice(v) for x, v in OTHER.items() if rng.random() < .5}
    orig = copy.deepcopy(cnf)
    h = world.handler({'': cnf})
    rng.shuffle(ops)
    for rnd in range(2):
        for o, md in ops:
            client = h.client_setup(o.issuer)
            beh = world.plain(client.client_get('service_context').behaviour)
            want, _ = model(prefs, md)
            for p, v in want.items():
                c.equal(beh.get(p), v, 'negotiated %s (shared configuration)' % p, (prefs[p], md.get(PREFS[p][0])))
            for p in PREFS:
                if p not in prefs:
                    c.check(p not in beh, 'behaviour that nobody asked for (shared configuration)', (p, beh.get(p)))
            for p, v in (fixed or {}).items():
                c.equal(beh.get(p), v, 'configured behaviour %s (shared configuration)' % p)
            if rnd == 0:
                req = [r for r in c.net.log if r.op is o and r.endpoint == 'registration_endpoint'][-1].info['req']
                for p in IN_REG:
                    if p in want:
                        c.equal(req.get(p), want[p], 'registered %s (shared configuration)' % p)
            c.seen('shared', len(ops), tuple(sorted(want))[:6], fixed is not None)
    c.equal(cnf, orig, 'the configuration was changed')


def run(r):
    r.cases('negotiate', 260, negotiate, thorough=12000)
    r.cases('clash', 96, clash, thorough=3200)
    r.cases('shared', 60, shared, thorough=3000)
