"""Relying party side of a workload: configurations, handlers, flows."""
import copy
import json
import string

import jose
import op as opmod
from core import Violation, short
from net import ProtocolError
from vclock import CLOCK

from cryptojwt.key_jar import KeyJar, build_keyjar

from oidcrp.rp_handler import RPHandler

BASE = 'https://rp.example.org'

SERVICES = {
    'web_finger': {'class': 'oidcrp.oidc.webfinger.WebFinger'},
    'discovery': {'class': 'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery'},
    'registration': {'class': 'oidcrp.oidc.registration.Registration'},
    'authorization': {'class': 'oidcrp.oidc.authorization.Authorization'},
    'access_token': {'class': 'oidcrp.oidc.access_token.AccessToken'},
    'refresh_access_token': {'class': 'oidcrp.oidc.refresh_access_token.RefreshAccessToken'},
    'userinfo': {'class': 'oidcrp.oidc.userinfo.UserInfo'},
    'end_session': {'class': 'oidcrp.oidc.end_session.EndSession'},
}
OAUTH2_SERVICES = {
    'discovery': {'class': 'oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery'},
    'authorization': {'class': 'oidcrp.oauth2.authorization.Authorization'},
    'access_token': {'class': 'oidcrp.oauth2.access_token.AccessToken'},
    'refresh_access_token': {'class': 'oidcrp.oauth2.refresh_access_token.RefreshAccessToken'},
}


def services(*drop, **conf):
    s = copy.deepcopy(SERVICES)
    for d in drop:
        s.pop(d, None)
    for k, v in conf.items():
        s[k]['kwargs'] = {'conf': v}
    return s


def pkce(length=64, method='S256'):
    return {'pkce': {'function': 'oidcrp.oauth2.add_on.pkce.add_support',
                     'kwargs': {'code_challenge_length': length, 'code_challenge_method': method}}}


def dpop(algs=('ES256',)):
    return {'dpop': {'function': 'oidcrp.oauth2.add_on.dpop.add_support',
                     'kwargs': {'signing_algorithms': list(algs)}}}


def par(**kw):
    return {'pushed_authorization': {'function': 'oidcrp.oauth2.add_on.pushed_authorization.add_support',
                                     'kwargs': kw}}


_rp_jwks = None


def rp_private_jwks():
    global _rp_jwks
    if _rp_jwks is None:
        kj = build_keyjar([{'type': 'RSA', 'use': ['sig']}, {'type': 'EC', 'crv': 'P-256', 'use': ['sig']}])
        _rp_jwks = kj.export_jwks(private=True)
    return _rp_jwks


def rp_public_jwks():
    res = []
    for k in rp_private_jwks()['keys']:
        res.append({a: b for a, b in k.items() if a not in ('d', 'p', 'q', 'dp', 'dq', 'qi')})
    return {'keys': res}


def rp_keys():
    return [jose.Key.from_jwk(k) for k in rp_public_jwks()['keys']]


def rp_keyjar():
    kj = KeyJar()
    kj.import_jwks(copy.deepcopy(rp_private_jwks()), '')
    kj.import_jwks(copy.deepcopy(rp_private_jwks()), BASE)
    return kj


def rndtext(rng, n=None, alphabet=None):
    n = n if n is not None else rng.randint(1, 12)
    alphabet = alphabet or (string.ascii_letters + string.digits + ' +&=%/?#:;@!$\'()*,"<>[]{}|\\^~`-_.'
                            + '\u00e5\u00e4\u00f6\u4e2d\u6587\U0001f600')
    return ''.join(rng.choice(alphabet) for _ in range(n))


def static_conf(op, client_id=None, secret=None, response_type='code', auth='client_secret_basic', scope=None,
                redirect=None, discovery=False, svc=None, add_ons=None, callbacks=False, prefs=None,
                behaviour=None, **extra):
    """Configuration of a statically registered client at op; registers the client at the op."""
    client_id = client_id or op.fresh('scid')
    secret = (op.fresh('ssecret') + 'abcdefghijklmnopqrstuvwxyz012345') if secret is None else secret
    cb = BASE + '/cb/' + op.tag
    cnf = {
        'issuer': op.issuer,
        'client_id': client_id,
        'client_secret': secret,
        'services': svc or services(),
    }
    if callbacks:
        cnf['callback'] = {'code': cb + '/code', 'implicit': cb + '/imp', 'form_post': cb + '/fp'}
        uris = list(cnf['callback'].values())
    else:
        uris = [redirect or cb]
        cnf['redirect_uris'] = list(uris)
    rts = [response_type] if isinstance(response_type, str) else response_type
    beh = {'response_types': list(rts), 'scope': list(scope or ['openid', 'email']),
           'token_endpoint_auth_method': auth}
    if discovery:
        # what a dynamic discovery negotiates ends up in the behaviour
        cnf['client_preferences'] = {'response_types': list(rts), 'scope': list(scope or ['openid', 'email']),
                                     'token_endpoint_auth_method': [auth] if isinstance(auth, str) else auth,
                                     **(prefs or {})}
        if behaviour:
            cnf['behaviour'] = dict(behaviour)
    else:
        beh.update(behaviour or {})
        cnf['behaviour'] = beh
        cnf['provider_info'] = {k: v for k, v in op.md.items() if k.endswith('_endpoint')
                                or k.endswith('_supported') or k in ('issuer',)}
        cnf['provider_info']['keys'] = {'url': {op.issuer: op.md['jwks_uri']}}
        if prefs:
            cnf['client_preferences'] = prefs
    if add_ons:
        cnf['add_ons'] = copy.deepcopy(add_ons)
    cnf.update(extra)
    op.add_client(client_id, secret, uris, rp_public_jwks())
    return cnf


def dynamic_conf(op=None, response_types=('code',), auth='client_secret_basic', scope=('openid', 'email'), svc=None,
                 add_ons=None, prefs=None, **extra):
    """Configuration of a client that discovers and registers. op=None: for any issuer ('')."""
    cnf = {
        'client_preferences': {
            'application_type': 'web', 'application_name': 'rphandler', 'contacts': ['ops@rp.example.org'],
            'response_types': list(response_types), 'scope': list(scope),
            'token_endpoint_auth_method': [auth] if isinstance(auth, str) else list(auth),
        },
        'redirect_uris': [],
        'services': svc or services(),
    }
    if op is not None:
        cnf['issuer'] = op.issuer
        if op.keyno % 3 == 1:
            cnf['redirect_uris'] = None
        elif op.keyno % 3 == 2:
            del cnf['redirect_uris']
        op.rp_jwks = rp_public_jwks()
    cnf['client_preferences'].update(prefs or {})
    if add_ons:
        cnf['add_ons'] = copy.deepcopy(add_ons)
    cnf.update(extra)
    return cnf


def handler(configs, base=BASE, cls=RPHandler, **kw):
    kw.setdefault('keyjar', rp_keyjar())
    kw.setdefault('jwks_path', 'static/jwks.json')
    return cls(base_url=base, client_configs=configs, **kw)


class Sess:
    """One session as seen from outside: what went over the wire."""

    def __init__(self, op, key, state, url):
        self.op, self.key, self.state, self.url = op, key, state, url
        self.req = self.grant = self.resp = self.ru = self.result = None

    def __repr__(self):
        return '<Sess %s %s>' % (self.op.tag, self.state[:6])


def begin(c, h, op, key=None, **kw):
    """Start a session. key: the name the application uses for the issuer."""
    res = h.begin(key or op.issuer, **kw)
    c.ev('sessions started')
    s = Sess(op, key or op.issuer, res['state'], res['url'])
    c.log('begin', op=op.tag, state=s.state)
    return s


def answer(c, s, mutate=None, **kw):
    """The provider's side of the authorization request."""
    params = s.op.resolve(s.op.read_authz(s.url))
    s.req = params
    s.ru, s.resp, s.grant = s.op.authorize(s.url, params=params, mutate=mutate, **kw)
    s.grant['sess'] = s
    c.ev('authorization responses')
    return s.resp


def finalize(c, h, s, resp=None, issuer=None, **kw):
    s.given = dict(resp if resp is not None else s.resp)
    r = h.finalize(issuer or s.op.issuer, dict(s.given), **kw)
    if isinstance(r, dict) and 'error' in r:
        raise Violation('login failed', 'finalize of a well-formed response gave %s' % short(dict(r)))
    s.result = r
    c.ev('logins completed')
    c.log('finalize', state=s.state, op=s.op.tag)
    return r


def login(c, h, op, key=None, mutate=None, fin=None, **kw):
    s = begin(c, h, op, key, **kw)
    answer(c, s, mutate)
    finalize(c, h, s, **(fin or {}))
    return s


def check_result(c, s, result=None, asked=True):
    """The application got exactly what this session's issuer returned for this session. asked: user info was asked for."""
    r = result or s.result
    g = s.grant
    c.equal(r['state'], s.state, 'wrong state in result')
    rt = g['rt']
    if 'code' in rt and not ({'token'} <= rt):
        c.equal(r['token'], g['ats'][-1], 'wrong access token in result')
    elif 'token' in rt:
        c.equal(r['token'], g['ats'][0], 'wrong access token in result')
    idt = r['id_token']
    if g['idts']:
        c.check(idt is not None, 'ID Token accepted but not returned', rt)
    if idt is not None:
        c.equal(idt['sub'], g['sub'], 'wrong subject in ID Token')
        c.equal(idt['iss'], s.op.issuer, 'wrong issuer in ID Token')
        if g.get('nonce'):
            c.equal(idt.get('nonce'), g['nonce'], 'wrong nonce in ID Token')
    given = getattr(s, 'given', None)
    if given is not None and 'session_state' in r:
        c.equal(r['session_state'] or None, given.get('session_state') or None, 'wrong session_state in result')
    ui = r['userinfo']
    if asked and r['token'] and g['idts'] and s.op.md.get('userinfo_endpoint'):
        c.check('ui' in g, 'the provider was not asked for user info', rt)
    if ui:
        c.equal(ui['sub'], g['sub'], 'wrong subject in user info')
        if 'ui' in g and r['token']:
            got = ui.to_dict() if hasattr(ui, 'to_dict') else dict(ui)
            c.equal(got, g['ui'], 'user info is not what the provider returned')
    c.ev('results compared')


def record(h, state):
    """The session record as plain data, or None when there is no such session."""
    try:
        st = h.get_session_information(state)
    except KeyError:
        return None
    return plain(st)


def plain(o):
    if hasattr(o, 'to_dict'):
        o = o.to_dict()
    if isinstance(o, str):
        try:
            v = json.loads(o)
        except ValueError:
            return o
        return plain(v) if isinstance(v, (dict, list)) else o
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return o


def context(h, op):
    """Service context of the client that serves an issuer."""
    return h.issuer2rp[op.issuer].client_get('service_context')


RT_ALL = ['code', 'id_token', 'id_token token', 'code id_token', 'code token', 'code id_token token']
AUTHS = ['client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt']


def gen_conf(rng, op, kind=None, rt=None, auth=None, add_ons=None, **kw):
    """A random client configuration for op. Returns (config, description)."""
    kind = kind or rng.choice(['static', 'static+discovery', 'dynamic'])
    rt = rt or rng.choice(RT_ALL)
    auth = auth or rng.choice(AUTHS)
    ao = dict(add_ons or {})
    if add_ons is None and rng.random() < .4 and 'code' in rt.split():
        ao.update(pkce(rng.randint(43, 128), rng.choice(['S256', 'S384', 'S512'])))
    prefs = dict(kw.pop('prefs', {}))
    if auth == 'client_secret_jwt':
        prefs.setdefault('token_endpoint_auth_signing_alg', rng.choice(['HS256', 'HS384', 'HS512']))
    elif auth == 'private_key_jwt':
        prefs.setdefault('token_endpoint_auth_signing_alg', rng.choice(['RS256', 'ES256', 'RS384', 'PS256']))
    desc = (kind, rt, auth, tuple(sorted(ao)))
    if kind == 'dynamic':
        return dynamic_conf(op, [rt], auth, add_ons=ao, prefs=prefs, **kw), desc
    return static_conf(op, response_type=rt, auth=auth, add_ons=ao, discovery=kind != 'static', prefs=prefs,
                       callbacks=rng.random() < .3, **kw), desc
