"""C11: user info is bound to the authenticated subject and to its token."""
import json
import os

import jose
import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

RULE = ('A case is one or several sessions whose provider answers user info requests with deviating subjects, signatures, '
        'aggregated or distributed claims, or with arbitrary well-formed claims. The oracle compares with what the '
        'provider asserted, using an independent JOSE implementation, and watches where access tokens go. Non-trivial: '
        'an answer that reached the client and whose fate was judged; distinct by (deviation, format, channel, set-up).')
ASSUMPTIONS = ['a signed user info response names its issuer, as OpenID Connect Core recommends',
               'PS* signatures use the maximum salt length, the only one cryptojwt accepts']

ISS = ['https://op.example.com', 'https://login.example.net:8443/x', 'https://third.example.org/']


def setup(c, rng, rt=None, prefs=None, kind=None, md=None, n=1, **kw):
    os.chdir(c.dir)
    ops, confs, descs = [], {}, []
    for k, iss in enumerate(rng.sample(ISS, n)):
        o = opmod.OP(c.net, iss, k, tag='op%d' % k, md=md)
        r = rt or rng.choice(['code', 'code id_token', 'id_token token', 'code token', 'code id_token token'])
        cnf, desc = world.gen_conf(rng, o, kind=kind, rt=r, auth=rng.choice(world.AUTHS[:2]), prefs=dict(prefs or {}), **kw)
        ops.append(o)
        confs[iss] = cnf
        descs.append(desc)
    return ops, world.handler(confs), descs


# ---- subject -----------------------------------------------------------------
def bad_sub(rng, sub, others):
    k = rng.choice(['other', 'case', 'space', 'prefix', 'suffix', 'missing', 'list', 'num', 'null', 'empty', 'nul', 'dict',
                    'homoglyph', 'bool'])
    v = {'other': others, 'case': sub.upper() if sub.upper() != sub else sub.lower(), 'space': ' ' + sub, 'prefix': sub[:-1],
         'suffix': sub + rng.choice('0 x'), 'missing': None, 'list': [sub, others], 'num': 12345, 'null': None, 'empty': '',
         'nul': sub + '\x00', 'dict': {'sub': sub}, 'homoglyph': sub[:-1] + '\u0430', 'bool': True}[k]
    return k, v


def subject(c, rng, i):
    (o,), h, (desc,) = setup(c, rng)
    if desc[1] == 'code token':
        rt = 'code'
    o.userinfo_format = rng.choice(['json', 'json', 'jwt'])
    subs = ['user-%s' % world.rndtext(rng, 6, 'abcXYZ019-_|') for _ in range(3)]
    o.sub_of = lambda g: subs[0]
    a = world.login(c, h, o) if rng.random() < .7 else None
    o.sub_of = lambda g: subs[1]
    how, val = bad_sub(rng, subs[1], subs[0])
    has_idt = desc[1] not in ('code token',)
    when = rng.choice(['login', 'login', 'later', 'after-refresh']) if has_idt else 'later'
    base = {'name': 'somebody', 'email': 'x@example.org'}

    def ui(rec, res):
        if res[0] != 200 or on[0] is False:
            return res
        d = dict(base)
        if how != 'missing':
            d['sub'] = val
        c.ev('deviating user info sent')
        if o.userinfo_format == 'jwt':
            return 200, {'Content-Type': 'application/jwt'}, jose.jws(dict(d, iss=o.issuer), 'RS256', o.rsa)
        return jresp(d)
    on = [when == 'login']
    o.hook['userinfo_endpoint'] = ui
    arec = a and world.record(h, a.state)
    s = world.begin(c, h, o)
    world.answer(c, s)
    if when == 'login':
        if 'token' not in desc[1].split() or 'id_token' in desc[1].split():
            c.refused(lambda: h.finalize(o.issuer, dict(s.resp)), 'user info with a wrong subject accepted',
                      '%s %r for %r' % (how, val, subs[1]))
            c.check('user_info' not in world.record(h, s.state), 'user info with a wrong subject recorded', how)
            c.seen('subject', how, when, o.userinfo_format, desc)
    else:
        fin = {'behaviour_args': {'collect_tokens': True}} if {'code', 'token'} <= set(desc[1].split()) else {}
        world.finalize(c, h, s, **fin)
        if when == 'after-refresh' and s.grant['rts']:
            o.idt_on_refresh = rng.random() < .5
            h.refresh_access_token(s.state)
        before = world.record(h, s.state)
        c.check('__verified_id_token' in json.dumps(before), 'no ID Token to compare with')
        on[0] = True
        c.refused(lambda: h.get_user_info(s.state), 'user info with a wrong subject accepted', '%s %r for %r' % (
            how, val, subs[1]))
        c.equal(world.record(h, s.state), before, 'refused user info changes the session', how)
        c.seen('subject', how, when, o.userinfo_format, desc)
    on[0] = False
    if has_idt:
        r = h.get_user_info(s.state)
        c.equal(r['sub'], subs[1], 'subject of genuine user info')
    if a:
        c.equal(world.record(h, a.state), arec, 'another session changed')
        c.equal(h.get_user_info(a.state)['sub'], subs[0], 'subject of the other session')


# ---- signed responses --------------------------------------------------------
SIG = ['good', 'good', 'good', 'wrongkey', 'wrongkey-kid', 'otherop', 'none', 'none-sig', 'otheralg', 'tamper', 'tamper-sig', 'strip',
       'jwk-header', 'jwk-unknown-iss', 'jku', 'x5c', 'hs-pub', 'hs-secret', 'iss-other', 'iss-own', 'iss-self', 'garbage',
       'alg-case', 'nested', 'two', 'iss-client', 'crit', 'unannounced']


def o2cid(o):
    return sorted(o.clients)[0]


def signed(c, rng, i):
    how = SIG[i % len(SIG)]
    reg = rng.choice([None, 'RS256', 'ES256', 'PS256', 'RS384', 'HS256', 'HS384']) if how != 'unannounced' else None
    sup = ['RS256', 'ES256', 'PS256', 'RS384', 'HS256', 'HS384', 'none']
    prefs = {'userinfo_signed_response_alg': reg} if reg else {}
    md = {'userinfo_signing_alg_values_supported': sup} if reg or rng.random() < .5 else {}
    if how == 'unannounced':
        # nothing was agreed on, what the provider says that it uses is what there is
        a1 = rng.choice(['RS256', 'ES256'])
        md = {'userinfo_signing_alg_values_supported': [x for x in sup if x != a1] if rng.random() < .5 else
              [{'RS256': 'ES256', 'ES256': 'RS256'}[a1]]}
    kind = rng.choice(['static+discovery', 'dynamic', 'static'])
    kw = {}
    if kind == 'static' and reg:
        kw['behaviour'] = dict(prefs)
    (o,), h, (desc,) = setup(c, rng, kind=kind, prefs=prefs, md=md, rt=rng.choice(['code', 'id_token token', 'code id_token']), **kw)
    op2 = opmod.OP(c.net, 'https://other.example.org', 5)
    h.client_configs[op2.issuer] = world.static_conf(op2)
    world.login(c, h, op2)
    # the provider may register something else than what was asked for
    granted = rng.choice(['RS256', 'ES256', 'PS256']) if kind == 'dynamic' and rng.random() < .5 and how != 'unannounced' else None
    reg = granted or reg
    alg = reg or rng.choice(['RS256', 'ES256'])
    if how == 'unannounced':
        alg = a1
    ct = rng.choice(['application/jwt', 'application/jwt', 'application/jwt', 'application/json'])
    if how == 'good':
        ct = 'application/jwt'
    ui = {}

    def make(rec, res):
        if res[0] != 200:
            return res
        g = rec.info['grant']
        p = {'sub': g['sub'], 'name': 'Name ' + g['sub'], 'iss': o.issuer, 'aud': rng.choice([[g['client_id']], g['client_id']]),
             'extra': {'a': [1, 2]}}
        secret = o.clients[g['client_id']]['client_secret']
        key, a, hd = o.key_for(alg, g['client_id']), alg, {}
        fake = opmod.pool_key('RSA' if alg[0] in 'RP' else 'P-256', 7)
        if alg[0] == 'H':
            fake = jose.Key.oct(secret[:-1] + ('0' if secret[-1] != '0' else '1'))
        t = None
        if how == 'wrongkey':
            key = fake
        elif how == 'wrongkey-kid':
            hd['kid'] = key.kid
            key = fake
        elif how == 'otherop':
            key = op2.key_for(alg, o2cid(op2))
        elif how in ('none', 'none-sig'):
            t = jose.jws(p, 'none')
            if how == 'none-sig':
                t += jose.b64e(b'xxxxxxxxxxxx')
        elif how == 'otheralg':
            a = {'RS256': 'ES256', 'ES256': 'RS256', 'PS256': 'RS256', 'RS384': 'RS256', 'HS256': 'HS512',
                 'HS384': 'HS256'}[alg]
            key = o.key_for(a, g['client_id'])
        elif how in ('tamper', 'tamper-sig', 'strip'):
            x = jose.jws(p, a, key).split('.')
            if how == 'tamper':
                x[1] = jose.b64e(json.dumps(dict(p, name='Mallory')))
            elif how == 'strip':
                x[2] = ''
            else:
                b = bytearray(jose.b64d(x[2]))
                b[rng.randrange(len(b))] ^= 4
                x[2] = jose.b64e(bytes(b))
            t = '.'.join(x)
        elif how in ('jwk-header', 'jwk-unknown-iss'):
            key, hd = fake, {'jwk': fake.jwk(), 'kid': rng.choice([None, fake.kid])}
            if how == 'jwk-unknown-iss':
                p['iss'] = 'https://nobody.example.net'
        elif how == 'jku':
            key, hd = fake, {'jku': op2.md['jwks_uri'], 'kid': fake.kid}
        elif how == 'x5c':
            key, hd = fake, {'x5c': ['MIIB']}
        elif how == 'hs-pub':
            from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
            pem = o.rsa.pub.public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo)
            key, a, hd = jose.Key.oct(pem), 'HS256', {'kid': rng.choice([None, o.rsa.kid])}
        elif how == 'hs-secret':
            key, a = jose.Key.oct(secret), 'HS256'
        elif how == 'iss-other':
            p['iss'] = op2.issuer
        elif how == 'iss-own':
            p['iss'] = world.BASE
        elif how == 'iss-self':
            p['iss'] = ''
        elif how == 'iss-client':
            p['iss'] = g['client_id']
        elif how == 'garbage':
            t = rng.choice(['a.b.c', '...', 'abc', jose.b64e('{}') + '.' + jose.b64e('{}') + '.'])
        elif how == 'alg-case':
            hd['alg'] = a.lower()
        elif how == 'nested':
            p = jose.jws(p, a, key)
            t = jose.jws(p, a, fake)
        elif how == 'two':
            t = jose.jws(p, a, key) + '.' + jose.b64e('x')
        elif how == 'crit':
            p['sub'] = 'someone-else'
        t = t or jose.jws(p, a, key, headers=hd)
        # the oracle: verifies with a key of the issuer, algorithm as registered, names the issuer
        ok = False
        try:
            v = jose.check(t, [o.rsa, o.ec, jose.Key.oct(secret)], [reg] if reg else md['userinfo_signing_alg_values_supported'] if
                           how == 'unannounced' else None)
            ok = bool(v) and v[1].get('iss') in (o.issuer, '', None) and v[1].get('sub') == g['sub']
            # without a registered algorithm the content type rules
            hs = v and v[0]['alg'][:2] == 'HS'
        except Exception:
            ok = hs = False
        if hs and v[1].get('sub') == g['sub'] and how in ('iss-client', 'iss-own') and ct == 'application/json':
            ui['either'] = True         # signed with the client secret, wrongly labelled
        if how in ('none', 'none-sig') and not reg and ct == 'application/json':
            ui['either'] = True         # not a signed response
        ui.update(t=t, p=p, ok=ok, hs=hs)
        return 200, {'Content-Type': ct}, t
    o.hook['userinfo_endpoint'] = make
    if granted:
        def grant(rec, res):
            d = json.loads(res[2])
            d['userinfo_signed_response_alg'] = granted
            return jresp(d, res[0])
        o.hook['registration_endpoint'] = grant
    s = world.begin(c, h, o)
    world.answer(c, s)
    try:
        r, err = h.finalize(o.issuer, dict(s.resp)), None
        if 'error' in r:
            r, err = None, r
    except Exception as e:
        r, err = None, e
    c.check('t' in ui, 'user info not asked for', repr(err))
    rec = world.record(h, s.state)
    txt = '%s granted' % how if granted else how
    txt = txt + ' registered=%s ct=%s %s' % (reg, ct, short(ui['t'], 900))
    if ui.get('either'):
        return
    if ui['ok'] and how == 'good':
        c.check(err is None, 'genuine signed user info refused', '%s %r' % (txt, err))
    if err is None and not ui['ok']:
        raise Violation('signed user info accepted that does not verify', txt)
    if err is None:
        got = {k: v for k, v in world.plain(r['userinfo']).items()}
        c.equal({k: got.get(k) for k in ('sub', 'name', 'extra')}, {k: ui['p'].get(k) for k in ('sub', 'name', 'extra')},
                'signed user info changed', txt)
    else:
        c.check('user_info' not in rec, 'refused user info recorded', txt)
    c.seen('signed', how, reg, ct, err is None, desc, bool(md))
    c.ev('signed user info judged')


# ---- encrypted responses ------------------------------------------------------
def enc_keys(rng):
    """Keys that the provider encrypts to, and a key jar with them."""
    import copy
    from cryptojwt.key_jar import KeyJar
    keys = [opmod.pool_key('RSA', 41), opmod.pool_key('P-256', 42)]
    jwks = copy.deepcopy(world.rp_private_jwks())
    jwks['keys'] += [k.jwk('enc', True) for k in keys]
    kj = KeyJar()
    for owner in ('', world.BASE):
        kj.import_jwks(copy.deepcopy(jwks), owner)
    return keys, kj


ENC = ['good', 'good', 'good', 'wrongkey', 'wrongkey-kid', 'none', 'otherop', 'otheralg', 'tamper', 'strip', 'iss-other', 'hs-pub',
       'jwk-header', 'iss-nobody', 'not-for-us', 'broken', 'other-enc', 'other-sub', 'bare', 'bare-none-inside']


def encrypted(c, rng, i):
    """Encryption says nothing about who wrote it: what is inside is judged as it would be outside."""
    how = ENC[i % len(ENC)]
    reg = rng.choice(['RS256', 'ES256', 'PS256', 'RS384', 'HS256', 'HS512'])
    keys, kj = enc_keys(rng)
    ekey = rng.choice(keys)
    ealg = rng.choice(['RSA-OAEP', 'RSA-OAEP-256']) if ekey.kty == 'RSA' else 'ECDH-ES'
    eenc = rng.choice(['A128CBC-HS256', 'A256CBC-HS512', 'A128GCM', 'A256GCM'])
    prefs = {'userinfo_signed_response_alg': reg, 'userinfo_encrypted_response_alg': ealg, 'userinfo_encrypted_response_enc': eenc}
    if how not in ('other-enc',) and rng.random() < .3:
        prefs = {'userinfo_signed_response_alg': reg}
    md = {'userinfo_signing_alg_values_supported': ['RS256', 'ES256', 'PS256', 'RS384', 'HS256', 'HS512', 'none'],
          'userinfo_encryption_alg_values_supported': ['RSA-OAEP', 'RSA-OAEP-256', 'ECDH-ES', 'RSA1_5'],
          'userinfo_encryption_enc_values_supported': ['A128CBC-HS256', 'A256CBC-HS512', 'A128GCM', 'A256GCM']}
    kind = rng.choice(['static+discovery', 'dynamic', 'dynamic', 'static'])
    granted = {}
    if kind == 'dynamic' and len(prefs) > 1 and rng.random() < .6:
        # the provider registers something else than what was asked for, and that is what goes
        granted = dict(prefs)
        prefs['userinfo_encrypted_response_enc'] = rng.choice(md['userinfo_encryption_enc_values_supported'])
        prefs['userinfo_encrypted_response_alg'] = rng.choice(md['userinfo_encryption_alg_values_supported'])
        prefs['userinfo_signed_response_alg'] = rng.choice(['RS256', 'ES256'])
    kw = {'behaviour': dict(prefs)} if kind == 'static' else {}
    os.chdir(c.dir)
    o = opmod.OP(c.net, ISS[0], 0, tag='op0', md=md)
    cnf, desc = world.gen_conf(rng, o, kind=kind, rt=rng.choice(['code', 'id_token token', 'code id_token']), auth=world.AUTHS[0],
                               prefs=dict(prefs), **kw)
    if 'client_id' in cnf and rng.random() < .3:
        # keys that were made for this registration
        import copy
        kj = world.rp_keyjar()
        kj.import_jwks({'keys': [copy.deepcopy(k.jwk('enc', True)) for k in keys]}, cnf['client_id'])
    h = world.handler({o.issuer: cnf}, keyjar=kj)
    op2 = opmod.OP(c.net, 'https://other.example.org', 5)
    h.client_configs[op2.issuer] = world.static_conf(op2)
    world.login(c, h, op2)
    ui = {}

    def make(rec, res):
        if res[0] != 200:
            return res
        g = rec.info['grant']
        p = {'sub': g['sub'], 'name': 'Name ' + g['sub'], 'iss': o.issuer, 'aud': [g['client_id']], 'extra': {'a': [1, 2]}}
        key, a, hd, t = o.key_for(reg, g['client_id']), reg, {}, None
        fake = opmod.pool_key('RSA' if reg[0] in 'RP' else 'P-256', 7)
        if reg[0] == 'H':
            fake = jose.Key.oct(o.clients[g['client_id']]['client_secret'][:-1])
        to, ea, ee, eh = ekey, ealg, eenc, {'cty': 'JWT'}
        if how in ('wrongkey', 'wrongkey-kid'):
            hd = {'kid': key.kid} if how == 'wrongkey-kid' else {}
            key = fake
        elif how == 'none':
            a, key = 'none', None
        elif how == 'otherop':
            key = op2.key_for(reg, o2cid(op2))
        elif how == 'otheralg':
            a = {'RS256': 'ES256', 'ES256': 'RS256', 'PS256': 'RS256', 'RS384': 'RS256', 'HS256': 'HS512', 'HS512': 'HS256'}[reg]
            key = o.key_for(a, g['client_id'])
        elif how == 'iss-other':
            p['iss'] = op2.issuer
        elif how == 'iss-nobody':
            p['iss'] = 'https://nobody.example.net'
        elif how == 'hs-pub':
            key, a = jose.Key.oct(json.dumps(o.rsa.jwk())), 'HS256'
        elif how == 'jwk-header':
            key, hd = fake, {'jwk': fake.jwk()}
        elif how == 'other-sub':
            p['sub'] = 'somebody-else'
        elif how == 'not-for-us':
            to = opmod.pool_key(ekey.kty == 'RSA' and 'RSA' or 'P-256', 8)
            eh['kid'] = rng.choice([ekey.kid, None])
        elif how == 'other-enc':
            # not what was registered
            if rng.random() < .5:
                ee = rng.choice([x for x in md['userinfo_encryption_enc_values_supported'] if x != eenc])
            elif ekey.kty == 'RSA':
                ea = rng.choice([x for x in ('RSA-OAEP', 'RSA-OAEP-256', 'RSA1_5') if x != ealg])
            else:
                to, ea = keys[0], 'RSA-OAEP'
        if how.startswith('bare'):
            t = json.dumps(p) if how == 'bare' else jose.jws(p, 'none')
        elif a == 'none':
            t = jose.jws(p, 'none')
        else:
            t = jose.jws(p, a, key, headers=hd)
        if how in ('tamper', 'strip'):
            x = t.split('.')
            if how == 'tamper':
                x[1] = jose.b64e(json.dumps(dict(p, name='Mallory')))
            else:
                x[2] = ''
            t = '.'.join(x)
        if how == 'bare' and rng.random() < .5:
            del eh['cty']
            ui['either'] = True         # encrypted but not signed, and it says so
        t = jose.jwe_encrypt(t, to, ea, ee, eh)
        if how == 'broken':
            x = t.split('.')
            k = rng.choice([2, 3, 4])
            b = bytearray(jose.b64d(x[k]))
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            x[k] = jose.b64e(bytes(b))
            t = '.'.join(x)
        ui.update(t=t, p=p)
        return 200, {'Content-Type': 'application/jwt'}, t
    o.hook['userinfo_endpoint'] = make
    if granted:
        o.hook['registration_endpoint'] = lambda rec, res: jresp(dict(json.loads(res[2]), **granted), res[0]) if res[0] == 201 else res
    s = world.begin(c, h, o)
    world.answer(c, s)
    try:
        r, err = h.finalize(o.issuer, dict(s.resp)), None
        if 'error' in r:
            r, err = None, r
    except Exception as e:
        r, err = None, e
    c.check('t' in ui, 'user info not asked for', repr(err))
    txt = '%s registered=%s %s/%s %s %s' % (how, reg, ealg, eenc, desc, short(ui['t'], 300))
    rec = world.record(h, s.state)
    if how == 'good':
        c.check(err is None, 'genuine encrypted user info refused', '%s %r' % (txt, err))
        got = world.plain(r['userinfo'])
        c.equal(got, ui['p'], 'encrypted user info changed', txt)
        c.equal(rec['user_info'], ui['p'], 'recorded encrypted user info', txt)
    elif err is None and not ui.get('either'):
        raise Violation('encrypted user info accepted that does not verify', txt)
    elif err is not None:
        c.check('user_info' not in rec, 'refused user info recorded', txt)
    c.seen('encrypted', how, reg, ealg, eenc, err is None, desc, len(prefs), prefs != granted and bool(granted))
    c.ev('encrypted user info judged')


# ---- aggregated and distributed claims ---------------------------------------
def aggregated(c, rng, i):
    os.chdir(c.dir)
    ekeys, kj = enc_keys(rng)
    o = opmod.OP(c.net, rng.choice(ISS), 0, tag='op0')
    cnf, desc = world.gen_conf(rng, o, rt=rng.choice(['code', 'id_token token', 'code id_token']), auth=rng.choice(world.AUTHS[:2]))
    h = world.handler({o.issuer: cnf}, keyjar=kj)
    cp = opmod.OP(c.net, 'https://claims.example.net', 6, tag='cp')     # a claims provider
    evil = opmod.pool_key('RSA', 7)
    names = ['shoe_size', 'payment_info', 'credit_score', 'address', 'phone_number', 'nickname', 'vip']
    state = {}

    def make(rec, res):
        if res[0] != 200:
            return res
        g = rec.info['grant']
        ui = {'sub': g['sub'], 'name': 'N', 'email': 'e@example.org'}
        want, cn, cs = dict(ui), {}, {}
        maybe = {}
        bad = []
        pool = rng.sample(names, len(names))
        srcs = rng.choice([['src0', 'src1', 'src2'], ['src1', 'src', 'src11'], ['src', 'Src', 'SRC'], ['a b', 'a', 'https://cp.example.net/a']])
        for k in range(rng.randint(1, 3)):
            src = srcs[k]
            mine = [pool.pop() for _ in range(rng.randint(1, 2))]
            val = {n: {'address': {'locality': 'L%d' % k}, 'vip': 'yes'}.get(n, '%s-from-%d' % (n, k)) for n in mine}
            more = dict(val)
            more['extra_%d' % k] = 'not attributed'
            if rng.random() < .3:
                more['name'] = 'overwritten'
                more['sub'] = 'sub-at-claims-provider'
            if pool and rng.random() < .4:
                more[pool[0]] = 'claimed by another source'
            kind = rng.choice(['good', 'good', 'good', 'none', 'wrongkey', 'unknown', 'tamper', 'strip', 'jwk', 'endpoint', 'endpoint-token',
                               'hs', 'op', 'json', 'jwe', 'jwe-good', 'jwe-none'])
            more['iss'] = cp.issuer
            key, alg, hd, tok = cp.rsa, 'RS256', {}, None
            if kind == 'none':
                tok = jose.jws(more, 'none')
            elif kind == 'json':
                tok = json.dumps(more)
            elif kind.startswith('jwe'):
                # encrypted to the client, which says nothing about who wrote it
                ek = rng.choice(ekeys)
                tok = {'jwe': json.dumps(more), 'jwe-none': jose.jws(more, 'none'), 'jwe-good': jose.jws(more, alg, key)}[kind]
                tok = jose.jwe_encrypt(tok, ek, 'RSA-OAEP' if ek.kty == 'RSA' else 'ECDH-ES', rng.choice(['A128GCM', 'A128CBC-HS256']),
                                       {'cty': rng.choice(['JWT', None])})
            elif kind == 'wrongkey':
                key = evil
                hd = {'kid': rng.choice([evil.kid, cp.rsa.kid])}
            elif kind == 'unknown':
                key = evil
                more['iss'] = 'https://unknown.example.net'
            elif kind == 'jwk':
                key = evil
                hd = {'jwk': evil.jwk()}
                if rng.random() < .5:
                    more['iss'] = 'https://unknown.example.net'
            elif kind == 'hs':
                key, alg = jose.Key.oct(json.dumps(cp.rsa.jwk())), 'HS256'
            elif kind == 'op':
                key = o.rsa
                more['iss'] = o.issuer
            tok = tok or jose.jws(more, alg, key, headers=hd)
            if kind == 'tamper':
                x = tok.split('.')
                x[1] = jose.b64e(json.dumps(dict(more, **{mine[0]: 'tampered'})))
                tok = '.'.join(x)
            elif kind == 'strip':
                tok = tok[:tok.rindex('.') + 1]
            if kind.startswith('endpoint'):
                cs[src] = {'endpoint': 'https://claims.example.net/claims/%d' % k}
                if kind == 'endpoint-token':
                    cs[src]['access_token'] = 'token-for-claims-%d' % k
            else:
                cs[src] = {'JWT': tok}
            for n in mine:
                cn[n] = src
            if kind in ('good', 'op', 'jwe-good'):
                want.update(val)
            elif not kind.startswith('endpoint'):
                bad.append((kind, mine, more))
            c.seen('aggregated', kind, len(mine))
        if rng.random() < .2:
            cn['ghost'] = 'no-such-source'
        state.update(want=want, bad=bad, kinds=list(cs))
        ui['_claim_names'], ui['_claim_sources'] = cn, cs
        return jresp(ui)
    o.hook['userinfo_endpoint'] = make
    s = world.begin(c, h, o)
    ctx = world.context(h, o)
    ctx.keyjar.import_jwks(cp.jwks(), cp.issuer)
    world.answer(c, s)
    try:
        r, err = h.finalize(o.issuer, dict(s.resp)), None
    except Exception as e:
        r, err = None, e
    rec = world.record(h, s.state)
    bad = state['bad']
    if err is not None:
        c.check(bad, 'user info with genuine aggregated claims refused', repr(err))
        c.check('user_info' not in rec, 'refused user info recorded')
    else:
        got = world.plain(r['userinfo'])
        got.pop('_claim_names', None)
        got.pop('_claim_sources', None)
        c.equal(got, state['want'], 'claims merged', 'bad sources: %s' % short([b[:2] for b in bad]))
        st = dict(rec['user_info'])
        st.pop('_claim_names', None)
        st.pop('_claim_sources', None)
        c.equal(st, state['want'], 'claims recorded')
    watch(c, {a for g in o.issued for a in g['ats']}, {o.md['userinfo_endpoint']: o})
    c.ev('claim sources judged', len(state['kinds']))


def sub_claim(c, rng, i):
    """A claim source must not replace the subject."""
    (o,), h, (desc,) = setup(c, rng, rt=rng.choice(['code', 'id_token token', 'code id_token']))
    cp = opmod.OP(c.net, 'https://claims.example.net', 6, tag='cp')
    val = rng.choice(['somebody-else', 'other'])

    def make(rec, res):
        if res[0] != 200:
            return res
        d = json.loads(res[2])
        d['_claim_names'] = {'sub': 's1', 'vip': 's1'}
        d['_claim_sources'] = {'s1': {'JWT': jose.jws({'iss': cp.issuer, 'sub': val, 'vip': 'yes'}, 'RS256', cp.rsa)}}
        return jresp(d)
    o.hook['userinfo_endpoint'] = make
    s = world.begin(c, h, o)
    world.context(h, o).keyjar.import_jwks(cp.jwks(), cp.issuer)
    world.answer(c, s)
    try:
        r = h.finalize(o.issuer, dict(s.resp))
    except Exception:
        r = None
    if r:
        c.equal(r['userinfo']['sub'], s.grant['sub'], 'a claim source replaced the subject')
    ui = world.record(h, s.state).get('user_info')
    if ui:
        c.equal(ui['sub'], s.grant['sub'], 'a claim source replaced the recorded subject')
    c.seen('sub_claim', val, desc, bool(r))


def distributed(c, rng, i):
    """fetch_distributed_claims: only attributed claims, tokens only to their own endpoint."""
    (o,), h, (desc,) = setup(c, rng, rt=rng.choice(['code', 'id_token token']))
    names = ['shoe_size', 'payment_info', 'credit_score', 'vip', 'age', 'level']
    eps, want_req = {}, []
    pool = rng.sample(names, len(names))
    srcs = rng.choice([['s0', 's1', 's2'], ['s1', 's', 's11'], ['src', 'Src', 'SRC'], ['a b', 'a', 'https://cp.example.net/a']])
    cn, cs, want = {'sub': srcs[0]} if rng.random() < .3 else {}, {}, {}
    cbtok = {}
    for k in range(rng.randint(1, 3)):
        ep = 'https://claims%d.example.net/c?x=%d' % (k, k)
        mine = [pool.pop() for _ in range(rng.randint(1, 2))]
        val = {n: '%s-%d' % (n, k) for n in mine}
        more = dict(val)
        if rng.random() < .5:
            more['extra'] = 'not attributed'
            more['name'] = 'overwritten'
            more['sub'] = 'sub-at-claims'
        how = rng.choice(['token', 'callback', 'plain'])
        cs[srcs[k]] = {'endpoint': ep}
        if how == 'token':
            cs[srcs[k]]['access_token'] = 'ctoken-%d' % k
            eps[ep] = 'Bearer ctoken-%d' % k
        elif how == 'callback':
            cbtok[ep] = 'cbtoken-%d' % k
            eps[ep] = 'Bearer cbtoken-%d' % k
        else:
            eps[ep] = None
        for n in mine:
            cn[n] = srcs[k]
        want.update(val)
        if 'sub' in cn:
            more.setdefault('sub', 'somebody-else')
        c.net.attach(ep, lambda rec, more=more: jresp(more))
    if pool and rng.random() < .4:
        cn[pool.pop()] = 'no-such'

    def make(rec, res):
        if res[0] != 200:
            return res
        d = json.loads(res[2])
        d['_claim_names'], d['_claim_sources'] = cn, cs
        return jresp(d)
    o.hook['userinfo_endpoint'] = make
    s = world.login(c, h, o)
    base = {k: v for k, v in world.plain(s.result['userinfo']).items() if not k.startswith('_claim')}
    c.equal(base, s.grant['ui'], 'user info beside distributed claims')
    k = len(c.net.log)
    c.equal([r.url for r in c.net.log if 'claims' in r.netloc], [], 'distributed claims fetched unasked')
    rp = h.issuer2rp[o.issuer]
    has_plain = any(v is None for v in eps.values())
    cb = (lambda ep: cbtok[ep]) if cbtok and not has_plain else None
    if cbtok and has_plain:
        # without callback these are asked for without token
        for ep in cbtok:
            eps[ep] = None
    ui = s.result['userinfo']
    r = rp.fetch_distributed_claims(ui, callback=cb)
    got = {a: b for a, b in world.plain(r).items() if not a.startswith('_claim')}
    c.equal(got, dict(base, **want), 'distributed claims')
    sent = {x.url: x.headers.get('authorization') for x in c.net.log[k:]}
    c.equal(sent, eps, 'tokens sent for distributed claims')
    watch(c, {a for g in o.issued for a in g['ats']}, {o.md['userinfo_endpoint']: o})
    c.seen('distributed', sorted(str(v) for v in eps.values()), desc)


# ---- where access tokens go --------------------------------------------------
def watch(c, tokens, eps):
    """An access token appears in user info requests to its own issuer only, as bearer credential."""
    for rec in c.net.log:
        txt = rec.text()
        for t in tokens:
            if t in txt:
                c.check(t not in rec.url, 'access token in a URL', rec.url)
                c.equal(rec.endpoint, 'userinfo_endpoint', 'access token sent elsewhere', rec.url)
                c.check(t in rec.op.access, 'access token sent to another issuer', rec.url)
                a = rec.headers.get('authorization')
                if rec.info.get('inbody'):
                    c.check(a is None, 'token sent twice')
                else:
                    c.equal(a, 'Bearer ' + t, 'access token not sent as bearer credential')
                    c.check(t.encode() not in rec.body, 'access token in header and body')
                c.ev('access tokens followed')


def transport(c, rng, i):
    ops, h, descs = setup(c, rng, n=rng.randint(2, 3))
    for o in ops:
        if rng.random() < .3:
            o.md['userinfo_endpoint'] += '?tenant=a%20b'
    for o, d in zip(ops, descs):
        if d[0] == 'static':
            h.client_configs[o.issuer]['provider_info']['userinfo_endpoint'] = o.md['userinfo_endpoint']
    sess = []
    for _ in range(rng.choice([3, 6])):
        o = rng.choice(ops)
        sess.append(world.begin(c, h, o))
    rng.shuffle(sess)
    for s in sess:
        world.answer(c, s)
    for s in sess:
        world.finalize(c, h, s)
        world.check_result(c, s)
    for _ in range(rng.choice([4, 8])):
        s = rng.choice(sess)
        n = len(c.net.log)
        # what the provider knows about the user changes
        s.op.ui_claims = {'nickname': 'nick %d' % rng.randrange(4), rng.choice(['given_name', 'locale', 'zoneinfo']): 'v%d' % n}
        how = rng.choice(['plain', 'post', 'body', 'refresh', 'explicit'])
        if how == 'refresh' and s.grant['rts']:
            h.refresh_access_token(s.state)
            continue
        if how == 'post':
            ui = h.get_user_info(s.state, method='POST')
        elif how == 'body':
            ui = h.get_user_info(s.state, method='POST', authn_method='bearer_body')
            for r in c.net.log[n:]:
                r.info['inbody'] = True
        elif how == 'explicit':
            ui = h.get_user_info(s.state, access_token=rng.choice(s.grant['ats']))
        else:
            ui = h.get_user_info(s.state)
        c.equal(world.plain(ui), s.grant['ui'], 'user info of another session')
        c.equal(world.record(h, s.state)['user_info'], s.grant['ui'], 'recorded user info')
        recs = c.net.log[n:]
        c.equal([(r.op, r.endpoint) for r in recs], [(s.op, 'userinfo_endpoint')], 'user info request')
        c.equal(recs[0].method, 'POST' if how in ('post', 'body') else 'GET', 'method of the user info request')
        c.seen('transport', how, descs[ops.index(s.op)], 'tenant' in s.op.md['userinfo_endpoint'])
    watch(c, {a for o in ops for g in o.issued for a in g['ats']}, {})


# ---- identity ----------------------------------------------------------------
def value(rng, depth=0):
    r = rng.random()
    if r < .45 or depth > 2:
        return world.rndtext(rng, rng.choice([1, 5, 30]))
    if r < .55:
        return rng.choice([0, 1, -5, 2 ** 40, 17])
    if r < .62:
        return rng.choice([True, False])
    if r < .68:
        return rng.choice([1.5, -0.25])
    if r < .84:
        return [value(rng, depth + 1) for _ in range(rng.randint(1, 3))]
    return {world.rndtext(rng, 4, 'abcdefg'): value(rng, depth + 1) for _ in range(rng.randint(1, 3))}


def identity(c, rng, i):
    """What the application receives equals what the provider asserted."""
    via = rng.choice(['json', 'json', 'json-ascii', 'jwt', 'id_token'])
    svc = world.services('userinfo') if via == 'id_token' else None
    (o,), h, (desc,) = setup(c, rng, rt=rng.choice(['code', 'id_token', 'code id_token'] if via == 'id_token' else
                                                   ['code', 'id_token token', 'code id_token', 'code token']), svc=svc)
    claims = {}
    T = lambda: world.rndtext(rng, rng.choice([1, 8, 40]))
    for k in rng.sample(['name', 'given_name', 'family_name', 'nickname', 'preferred_username', 'profile', 'picture', 'website', 'email',
                         'gender', 'zoneinfo', 'locale', 'phone_number'], rng.randint(0, 6)):
        claims[k] = T()
    if rng.random() < .4:
        claims['email_verified'] = rng.choice([True, False])
    if rng.random() < .3:
        claims['updated_at'] = rng.choice([0, 1, 1700000000])
    if rng.random() < .3:
        claims['birthdate'] = rng.choice(['1970-01-01', '0000-12-24', '1999'])
    if rng.random() < .4:
        claims['address'] = {k: T() for k in rng.sample(['formatted', 'street_address', 'locality', 'region', 'postal_code', 'country'],
                                                        rng.randint(1, 4))}
    for _ in range(rng.randint(0, 5)):
        claims['x_' + world.rndtext(rng, 3, 'abcdef')] = value(rng)
    if rng.random() < .2:
        claims['groups'] = [T() for _ in range(rng.randint(1, 4))]
    if rng.random() < .2:
        claims['https://example.org/claims/' + world.rndtext(rng, 3, 'abc')] = value(rng)
    if via == 'id_token':
        o.extra_claims = dict(claims)
        s = world.login(c, h, o)
        got = world.plain(s.result['userinfo'])
        got.pop('sub', None)
        want = dict(claims)
        got = {k: v for k, v in got.items() if k in want}
        c.equal(got, want, 'user info from the ID Token')
        c.equal(s.result['userinfo']['sub'], s.grant['sub'], 'subject from the ID Token')
        c.seen('identity', via, desc, sorted(claims)[:4])
        c.ev('claims compared', len(claims))
        return
    o.ui_claims = claims
    o.userinfo_format = 'jwt' if via == 'jwt' else 'json'
    if via == 'json':
        o.hook['userinfo_endpoint'] = lambda rec, res: (res[0], {'Content-Type': 'application/json'},
                                                        json.dumps(json.loads(res[2]), ensure_ascii=False))
    s = world.login(c, h, o)
    want = dict(s.grant['ui'])
    for got, what in ((world.plain(s.result['userinfo']), 'user info'), (world.record(h, s.state)['user_info'], 'recorded user info'),
                      (world.plain(h.get_user_info(s.state)), 'user info asked for again')):
        got = dict(got)
        if via == 'jwt':
            got.pop('iss', None)
            got.pop('aud', None)
        c.equal(world.plain(got), world.plain(want), '%s differs from what was asserted' % what)
    if rng.random() < .3:
        # the application may have the user info processed
        extra = T()

        def process(response, state_interface, state):
            c.equal(state, s.state, 'session of the user info that is processed')
            return type(response)(**dict(response.to_dict(), x_processed=extra))
        h.issuer2rp[o.issuer].client_get('service', 'userinfo').post_parse_process.append(process)
        got = world.plain(h.get_user_info(s.state))
        c.equal((got.get('x_processed'), got['sub']), (extra, want['sub']), 'processed user info')
        got = dict(world.record(h, s.state)['user_info'])
        c.equal((got.get('x_processed'), got['sub']), (extra, want['sub']), 'recorded processed user info')
        c.ev('processed user info')
    c.seen('identity', via, desc, sorted(claims)[:4])
    c.ev('claims compared', len(want))


def run(r):
    r.cases('subject', 140, subject, thorough=5000, share=.4)
    r.cases('signed', 216, signed, thorough=8000, share=.4)
    r.cases('encrypted', 80, encrypted, thorough=4000, share=.4)
    r.cases('aggregated', 160, aggregated, thorough=5000, share=.5)
    r.cases('sub_claim', 12, sub_claim, thorough=200)
    r.cases('distributed', 50, distributed, thorough=2000, share=.5)
    r.cases('transport', 60, transport, thorough=3000, share=.6)
    r.cases('identity', 120, identity, thorough=6000)
