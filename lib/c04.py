"""C04: the authorization request says exactly what was configured and asked for."""
import copy
import json
import os
from urllib.parse import urlsplit

import ext_functions
import op as opmod
import world
from core import Violation, short
from oidcmsg.message import Message

RULE = ('A case is an authorization request built from random configured and call-time parameters; a strict parser reads '
        'the URL and the result is compared with an independently computed expectation. Non-trivial: a request whose '
        'full parameter set was compared; distinct by (response type, parameter sources, endpoint form, set-up).')
ASSUMPTIONS = ['parameters with an empty value are not sent (the message layer drops them)',
               'lists are space separated as OAuth2 prescribes, so their members contain no spaces']

ENDPOINTS = ['/authorize', '/authorize?tenant=a%20b', '/authorize?x=1&y=%C3%A5&z=a+b', '/oauth2/v1/auth;v=2',
             '/a%2Fb/authorize', '/authorize?p=B2C_1_sign%2Bin&flag=', '/~x/authorize?state_hint=%26%3D']
WORDS = ['alpha', 'b-e_t.a', 'gamma:1', 'urn:x:y', 'sv-SE', 'en', 'a/b', 'x+y', 'q=1&r', '100%', 'å', '中文', "o'brien", 'a#b']


def text(rng):
    v = world.rndtext(rng, rng.choice([1, 3, 8, 20, 60]))
    return v.strip() or 'x'


def claims_req(rng):
    d = {}
    for part in rng.sample(['userinfo', 'id_token'], rng.randint(1, 2)):
        d[part] = {}
        for cl in rng.sample(['given_name', 'email', 'acr', 'auth_time', 'http://example.info/claims/groups'],
                             rng.randint(1, 3)):
            d[part][cl] = rng.choice([None, {'essential': True}, {'value': text(rng)},
                                      {'values': [text(rng), text(rng)], 'essential': True}])
    return d


PARAMS = {
    'prompt': lambda r: r.choice(['login', 'consent', 'select_account', ['login', 'consent'], 'none', ['login']]),
    'display': lambda r: r.choice(['page', 'popup', 'touch', 'wap']),
    'acr_values': lambda r: r.sample(WORDS, r.randint(1, 3)),
    'ui_locales': lambda r: r.sample(WORDS, r.randint(1, 3)),
    'claims_locales': lambda r: r.sample(WORDS, r.randint(1, 2)),
    'max_age': lambda r: r.choice([0, 1, 3600, 86400]),
    'login_hint': text,
    'id_token_hint': lambda r: 'aaa.bbb.' + str(r.randint(1, 99)),
    'claims': claims_req,
    'response_mode': lambda r: r.choice(['query', 'fragment', 'form_post']),
    'resource': lambda r: 'https://api.example.com/r%20s?x=' + str(r.randint(1, 9)),
    'x-custom': text,
    'kc_idp_hint': text,
    'ext.param[0]': text,
    'åparam': text,
}


def norm(v):
    """The string a parameter value becomes on the wire."""
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (list, tuple)):
        return ' '.join(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, dict):
        return ('json', json.dumps(v, sort_keys=True))
    return v


def wire(q):
    res = {}
    for k, v in q.items():
        if k in ('claims', 'registration'):
            v = ('json', json.dumps(json.loads(v), sort_keys=True))
        res[k] = v
    return res


def pick_params(rng, n, without=()):
    return {k: PARAMS[k](rng) for k in rng.sample([p for p in PARAMS if p not in without], n)}


def freeze(o):
    if isinstance(o, dict):
        return {k: freeze(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [freeze(v) for v in o]
    return o if isinstance(o, (str, int, float, bool, type(None))) else repr(o)


def setup(c, rng, extra_prefs=None, **kw):
    ep = rng.choice(ENDPOINTS)
    iss = rng.choice(['https://op.example.com', 'https://op.example.com:8443/t', 'https://op.example.com/x/'])
    o = opmod.OP(c.net, iss, 0, md={'authorization_endpoint': 'https://login.example.com' + ep})
    return o, ep


def expected_redirect(h, o, cnf, rt, args):
    if args.get('redirect_uri'):
        return {args['redirect_uri']}
    if cnf.get('callback'):
        cb = cnf['callback']
        if args.get('response_mode') == 'form_post':
            return {cb['form_post']}
        return {cb['code'] if rt == 'code' else cb['implicit']}
    if cnf.get('redirect_uris'):
        return set(cnf['redirect_uris'])
    for r in o.clients.values():
        uris = r['redirect_uris']
    return set(uris)


def request(c, rng, i):
    o, ep = setup(c, rng)
    rt = rng.choice(world.RT_ALL)
    cfg = pick_params(rng, rng.choice([0, 0, 2, 4]))
    scope = rng.choice([['openid'], ['openid', 'email'], ['email'], ['openid', 'offline_access'], ['profile', 'å:b'],
                        ['offline_access']])
    kind = rng.choice(['static', 'static', 'static+discovery', 'dynamic'])
    pk = rng.random() < .3
    add = world.pkce() if pk else {}
    fp = rng.random() < .5
    if cfg.get('response_mode') == 'form_post' and kind == 'dynamic' and not fp:
        cfg['response_mode'] = 'fragment'
    if kind != 'dynamic' and rng.random() < .15:
        cfg['response_type'] = rng.choice(world.RT_ALL)
    if rng.random() < .1:
        cfg['scope'] = rng.choice([['phone'], ['openid', 'address']])
    extra = {'request_args': copy.deepcopy(cfg)} if cfg else {}
    rts = [rng.choice(world.RT_ALL)]
    if kind != 'static':
        scope = [x for x in scope if x in o.md['scopes_supported']]
    if kind == 'dynamic':
        cnf = world.dynamic_conf(o, [rt] if rts[0] == rt else [rt, rts[0]], scope=scope, add_ons=add, prefs={'form_post_usable': True} if fp else {},
                                 **extra)
    else:
        cnf = world.static_conf(o, response_type=rt, scope=scope, add_ons=add, discovery=kind != 'static',
                                callbacks=rng.random() < .4, **extra)
    beh = {}
    if kind == 'static' and rng.random() < .4:
        beh = pick_params(rng, rng.randint(1, 3), without=('resource', 'x-custom', 'kc_idp_hint',
                                                           'ext.param[0]', 'åparam', 'claims'))
        cnf['behaviour'].update(copy.deepcopy(beh))
    # nothing said about the scope, or the response types: there are defaults
    part = cnf['behaviour'] if kind == 'static' else cnf['client_preferences']
    if rng.random() < .12:
        del part['scope']
        scope = ['openid']
    if rng.random() < .12 and (kind != 'dynamic' or rt == 'code' == rts[0]):
        if kind == 'dynamic':
            cnf['redirect_uris'] = [world.BASE + '/given/cb']
        del part['response_types']
        rt = 'code'
    before_cfg = freeze(cnf)
    h = world.handler({o.issuer: cnf})
    for k in range(rng.randint(1, 3)):
        args = pick_params(rng, rng.choice([0, 1, 3, 6]))
        if args.get('response_mode') == 'form_post' and kind == 'dynamic' and not fp:
            args['response_mode'] = 'query'
        if rng.random() < .3:
            args['scope'] = rng.choice([['openid', 'phone'], ['phone'], ['openid', 'offline_access'], 'email', 'openid email',
                                        'phone profile', ['address', 'offline_access'], 'myopenid', 'openid2 email', ['openid.more', 'email'],
                                        'urn:x:openid:offline_access', ['offline_access_x'], 'email offline_access'])
        if rng.random() < .2:
            args['response_type'] = rts[0] if kind == 'dynamic' else rng.choice(world.RT_ALL)
        if rng.random() < .2 and (cnf.get('redirect_uris') or cnf.get('callback')):
            args['redirect_uri'] = rng.choice(cnf.get('redirect_uris') or list(cnf['callback'].values()))
        if rng.random() < .15:
            args['nonce'] = 'my nonce %d & more' % k
        passed = copy.deepcopy(args)
        s = world.begin(c, h, o, req_args=passed if args or rng.random() < .5 else None)
        c.equal(freeze(passed), freeze(args), "the caller's request arguments were modified")
        check(c, h, o, cnf, s, rt, scope, beh, cfg, args, pk)
        c.equal(h.get_response_type(h.issuer2rp[o.issuer]), rt, 'response type of the client')
        c.seen('scope' in part, 'response_types' in part, args.get('response_type', rt), kind, ep, tuple(sorted(args)), tuple(sorted(cfg)), tuple(sorted(beh)))
    c.equal(freeze(cnf), before_cfg, 'the configuration was modified')


def check(c, h, o, cnf, s, rt, scope, beh, cfg, args, pk):
    exp = {}
    exp.update(beh)
    exp.update(cfg)
    exp.update(args)
    crt = args.get('response_type', cfg.get('response_type', rt))
    exp['response_type'] = crt
    sc = args.get('scope', cfg.get('scope', scope))
    sc = sc.split(' ') if isinstance(sc, str) else list(sc)
    q = o.read_authz(s.url)           # strict: endpoint, its query kept, no repeated parameters
    u = urlsplit(s.url)
    c.equal(u.fragment, '', 'fragment in request URL')
    eq = urlsplit(o.md['authorization_endpoint']).query
    if eq:
        c.check(eq in u.query, "the endpoint's query was changed", s.url)
    # scope
    got = q.pop('scope').split(' ')
    c.check('openid' in got, 'no openid in scope', got)
    if 'openid' not in sc:
        got.remove('openid')
    c.equal(got, sc, 'scope')
    # prompt
    if 'offline_access' in sc and 'prompt' not in exp:
        exp['prompt'] = 'consent'
    # state, nonce, client, redirect_uri
    c.equal(q.pop('state', None), s.state, 'state')
    if 'nonce' in exp:
        pass
    elif {'code', 'id_token'} & set(crt.split()):
        c.check(len(q.get('nonce', '')) >= 16, 'no nonce', short(q))
        exp['nonce'] = q['nonce']
    elif 'nonce' in q:
        exp['nonce'] = q['nonce']
    cid = cnf.get('client_id') or list(o.clients)[-1]
    c.equal(q.pop('client_id', None), cid, 'client_id')
    ru = q.pop('redirect_uri', None)
    c.check(ru in expected_redirect(h, o, cnf, crt, {**beh, **cfg, **args}), 'redirect_uri does not belong or fit',
            '%s %s %s' % (ru, crt, {**beh, **cfg, **args}.get('response_mode')))
    exp.pop('redirect_uri', None)
    exp.pop('scope', None)
    if pk:
        c.check('code_challenge' in q and 'code_challenge_method' in q, 'no code challenge', short(q))
        exp['code_challenge'], exp['code_challenge_method'] = q['code_challenge'], 'S256'
    want = {k: norm(v) for k, v in exp.items()}
    have = wire(q)
    if have != want:
        diff = {k: (have.get(k), want.get(k)) for k in set(have) | set(want) if have.get(k) != want.get(k)}
        raise Violation('request parameters differ: ' + ','.join(sorted(diff)), '(got, want) %s' % short(diff, 1000))
    # the session records what was sent
    rec = world.record(h, s.state)['auth_request']
    sent = wire(o.read_authz(s.url))
    rec = {k: (('json', json.dumps(v, sort_keys=True)) if k in ('claims', 'registration') else norm(v))
           for k, v in rec.items()}
    if rec != sent:
        diff = {k: (rec.get(k), sent.get(k)) for k in set(rec) | set(sent) if rec.get(k) != sent.get(k)}
        raise Violation('recorded request differs: ' + ','.join(sorted(diff)), '(recorded, sent) %s' % short(diff, 1000))
    c.ev('requests compared')
    c.ev('parameters compared', len(have) + 5)


def service_level(c, rng, i):
    """The application drives the authorization service itself."""
    o, ep = setup(c, rng)
    rt = rng.choice(world.RT_ALL)
    callbacks = rng.random() < .5
    cnf = world.static_conf(o, response_type=rt, scope=['openid', 'email'], callbacks=callbacks)
    if callbacks:
        cnf['redirect_uris'] = []
    h = world.handler({o.issuer: cnf})
    world.begin(c, h, o)
    cl = h.issuer2rp[o.issuer]
    ctx = cl.client_get('service_context')
    st = ctx.state.create_state(o.issuer)
    args = pick_params(rng, rng.randint(0, 4))
    give_rt = rng.random() < .5
    if give_rt:
        args['response_type'] = rng.choice([rt, rng.choice(world.RT_ALL)])
    if rng.random() < .5:
        args['scope'] = rng.choice([['openid'], ['email'], 'phone'])
    passed = copy.deepcopy(args)
    passed['state'] = st
    if rng.random() < .3:
        args['nonce'] = passed['nonce'] = 'given-nonce-' + str(i)
    info = cl.client_get('service', 'authorization').get_request_parameters(request_args=passed)
    s = world.Sess(o, o.issuer, st, info['url'])
    c.equal(info.get('method'), 'GET', 'method')
    if not callbacks:
        args.setdefault('redirect_uri', cnf['redirect_uris'][0])
    check(c, h, o, cnf, s, rt, ['openid', 'email'], {}, {}, args, False)
    c.seen('service', callbacks, args.get('response_type', rt), ep, tuple(sorted(args)))


def independent(c, rng, i):
    """What is asked for in one request does not stick to the next one, of this or of another client."""
    os.chdir(c.dir)
    os.makedirs('requests', exist_ok=True)
    o, ep = setup(c, rng)
    o2 = opmod.OP(c.net, 'https://op2.example.net', 1)
    rt = rng.choice(world.RT_ALL)
    svc = world.services()
    conf = {}
    if rng.random() < .6:
        conf['post_construct'] = {'request_object_signing_alg': 'ES256'}
    if rng.random() < .4:
        conf['pre_construct'] = {'request_object_signing_alg': 'ES256'}
    fixed = pick_params(rng, 1, without=('response_mode',)) if rng.random() < .5 else {}
    fixed = {k: v for k, v in fixed.items() if k in ('prompt', 'display', 'acr_values', 'ui_locales', 'max_age', 'claims')}
    if fixed:
        conf['request_args'] = copy.deepcopy(fixed)
    if conf:
        svc['authorization']['kwargs'] = {'conf': conf}
    cnf = world.static_conf(o, response_type=rt, scope=['openid', 'email'], svc=svc, local_dir='requests')
    cnf2 = world.static_conf(o2, response_type=rt, scope=['openid', 'email'], svc=svc, local_dir='requests')
    before = freeze([cnf, cnf2])
    h = world.handler({o.issuer: cnf, o2.issuer: cnf2})
    for k in range(6):
        p, pc = rng.choice([(o, cnf), (o, cnf), (o2, cnf2)])
        args = pick_params(rng, rng.choice([0, 2, 8])) if k % 2 == 0 else {}
        if k == 2:
            args['scope'] = ['phone', 'offline_access']
        beh = {'request_param': rng.choice(['request', 'request_uri'])} if k in (1, 4) and rng.random() < .7 else None
        s = world.begin(c, h, p, req_args=args or None, behaviour_args=beh)
        q = p.read_authz(s.url)
        if beh:
            c.check(beh['request_param'] in q, 'the request object asked for is missing', short(q))
            c.check(not ({'request', 'request_uri'} - set(beh.values())) & set(q), 'another request object', short(q))
        else:
            c.check('request' not in q and 'request_uri' not in q, 'a request object nobody asked for', short(q))
            check(c, h, p, pc, s, rt, ['openid', 'email'], {}, fixed, args, False)
        c.seen('independent', k, rt, ep, bool(beh), tuple(sorted(conf)))
        if not args and 'request_uri' not in q and rng.random() < .5:
            world.answer(c, s)
            world.finalize(c, h, s)
    c.equal(freeze([cnf, cnf2]), before, 'the configuration was modified')


PRE = {'pre_mark': ('x_pre', lambda d: 'from pre & mark'), 'pre_more': ('x_more', lambda d: d.get('x_pre', 'nothing') + '+'),
       'pre_nothing': None}
POST = {'post_mark': ('x_post', lambda d: 'by post=mark'), 'post_replace': ('x_last', lambda d: d.get('x_post', 'no') + '?')}
FSVC = {'authorization': 'authorization', 'accesstoken': 'access_token', 'refresh_token': 'refresh_access_token',
        'userinfo': 'userinfo'}     # name of the service: its key in world.SERVICES


def functions(c, rng, i):
    """pre_functions and post_functions of a client's services take part in its requests, in order, and in no other's."""
    ops = [opmod.OP(c.net, 'https://op.example.com', 0), opmod.OP(c.net, 'https://op2.example.net', 1)]
    rt = rng.choice(['code', 'code', 'code id_token'])
    confs, fun = {}, {}
    for o in ops:
        svc = world.services()
        for name, key in FSVC.items():
            pre = rng.sample(sorted(PRE), rng.choice([0, 1, 2, 3]))
            post = rng.sample(sorted(POST), rng.choice([0, 1, 2]))
            if pre or rng.random() < .2:
                svc[key]['pre_functions'] = [{'function': 'ext_functions.' + f} for f in pre]
            if post or rng.random() < .2:
                svc[key]['post_functions'] = [{'function': 'ext_functions.' + f} for f in post]
            fun[o.issuer, name] = pre, post
        confs[o.issuer] = world.static_conf(o, response_type=rt, scope=['openid', 'email', 'offline_access'], svc=svc,
                                            add_ons=world.pkce() if rng.random() < .3 else {})
    before = freeze(confs)
    h = world.handler(confs)

    def look(o, name, params, state=None):
        pre, post = fun[o.issuer, name]
        want = {}
        for f in pre + post:
            p = PRE.get(f) or POST.get(f)
            if p:
                want[p[0]] = p[1](want)
        got = {k: v for k, v in params.items() if k in ('x_pre', 'x_more', 'x_post', 'x_last')}
        c.equal(got, want, 'parameters added by the functions of %s' % name)
        svc = context_service(h, o, name)
        calls = [t for t in ext_functions.TRACE if t[1] == id(svc)]
        c.equal([t[0] for t in calls], pre + post, 'functions called for %s' % name)
        for t in calls:
            if t[0] in POST and pre:
                for f in pre:
                    if f == 'pre_mark':
                        c.equal(t[3].get('pre_mark'), svc.service_name, 'what a pre function handed over')
                    if f == 'pre_more':
                        c.equal(t[3].get('pre_more'), 1, 'what a pre function handed over')
            if t[0] in POST and name == 'userinfo':
                c.equal(t[3].get('state'), state, 'state in a post function of userinfo')
            if name == 'authorization' and t[0] in POST:
                c.equal(t[2].get('state'), state, 'state in a post function of authorization')
        c.equal(len(calls), len(ext_functions.TRACE), 'functions called that are not of this service')
        del ext_functions.TRACE[:]
        c.ev('functions called', len(calls))
        c.seen(name, tuple(pre), tuple(post), rt)

    def context_service(h, o, name):
        return h.issuer2rp[o.issuer].client_get('service', name)

    del ext_functions.TRACE[:]
    for k in range(rng.randint(2, 4)):
        o = rng.choice(ops)
        s = world.begin(c, h, o)
        look(o, 'authorization', dict(o.read_authz(s.url)), s.state)
        world.answer(c, s)
        n = len(c.net.log)
        cl = h.issuer2rp[o.issuer]
        resp = h.finalize_auth(cl, o.issuer, s.resp)
        del ext_functions.TRACE[:]
        tr = h.get_tokens(s.state, cl)
        look(o, 'accesstoken', c.net.log[-1].params(), s.state)
        h.get_user_info(s.state, cl, tr['access_token'])
        look(o, 'userinfo', dict(c.net.log[-1].query), s.state)
        if 'refresh_token' in tr:
            h.refresh_access_token(s.state, cl)
            look(o, 'refresh_token', c.net.log[-1].params(), s.state)
    c.equal(freeze(confs), before, 'the configuration was modified')


def whole(v):
    return (type(v).__name__, freeze(v.to_dict() if isinstance(v, Message) else v))


def callers(c, rng, i):
    """What the application hands to a service, or to the handler, is its own: nothing is added to it or taken away."""
    os.chdir(c.dir)
    os.makedirs('requests', exist_ok=True)
    rt = rng.choice([t for t in world.RT_ALL if 'code' in t.split()])
    add = {}
    if rng.random() < .4:
        add.update(world.pkce())
    if rng.random() < .3:
        add.update(world.dpop())
    svc = world.services()
    am = rng.choice(['client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt'])
    conf = {'request_args': {'max_age': 77}} if rng.random() < .5 else {}
    if rng.random() < .3:
        conf['pre_construct'] = {'request_object_signing_alg': 'ES256'}
    if conf:
        svc['authorization']['kwargs'] = {'conf': conf}
    o = opmod.OP(c.net, 'https://op.example.com', 0, md={'dpop_signing_alg_values_supported': ['ES256']})
    cnf = world.static_conf(o, response_type=rt, scope=['openid', 'email', 'offline_access'], svc=svc, add_ons=add, local_dir='requests',
                            auth=am, discovery=rng.random() < .3, client_id='my client:%s' % i)
    before = freeze(cnf)
    h = world.handler({o.issuer: cnf})
    cl = h.init_client(o.issuer)
    h.do_provider_info(cl)
    ctx = cl.client_get('service_context')

    def call(name, args, **kw):
        given = args if isinstance(args, dict) else args.to_dict()
        as_msg = rng.random() < .3
        a = Message(**given) if as_msg else copy.deepcopy(given)
        inner = {k: v for k, v in a.items() if isinstance(v, (dict, list))}
        was, kwas, iwas = whole(a), freeze(kw), freeze(inner)
        info = cl.client_get('service', name).get_request_parameters(request_args=a, **kw)
        c.equal(whole(a), was, "%s: the caller's request arguments were modified" % name)
        c.equal(freeze(inner), iwas, "%s: what is in the caller's request arguments was modified" % name)
        c.equal(freeze(kw), kwas, '%s: the keyword arguments were modified' % name)
        c.check(info['request'] is not a, '%s: the request is the arguments given' % name, short(a))
        c.ev('calls of a service')
        c.seen(name, as_msg, am, rt, tuple(sorted(given)), tuple(sorted(kw)))
        return info

    st = ctx.state.create_state(o.issuer)
    args = pick_params(rng, rng.randint(0, 4), without=('prompt',))
    args['state'] = st
    if rng.random() < .4:
        args['scope'] = rng.choice([['email'], ['openid', 'offline_access'], 'phone'])
    if rng.random() < .4:
        args['prompt'] = rng.choice([['login'], 'login'])
    kw = {}
    if rng.random() < .4:
        kw['request_param'] = rng.choice(['request', 'request_uri'])
    info = call('authorization', args, **kw)
    s = world.Sess(o, o.issuer, st, info['url'])
    world.answer(c, s)
    a = h.finalize_auth(cl, o.issuer, s.resp)
    given = {}
    if rng.random() < .6:
        given = {'grant_type': 'authorization_code', 'code': a['code'], 'redirect_uri': cnf['redirect_uris'][0], 'state': st}
    if rng.random() < .4:
        given['client_id'] = cnf['client_id']
    if rng.random() < .3:
        given['client_secret'] = cnf['client_secret']
    if rng.random() < .3:
        given['resource'] = 'https://api.example.com/'
    call('accesstoken', given, state=st)
    tr = h.get_tokens(st, cl)
    given = {}
    if 'refresh_token' in tr:
        if rng.random() < .5:
            given = {'grant_type': 'refresh_token', 'refresh_token': tr['refresh_token']}
        if rng.random() < .4:
            given['scope'] = ['openid']
        if rng.random() < .3:
            given['client_id'] = cnf['client_id']
        call('refresh_token', given, state=st)
    given = {'access_token': tr['access_token']} if rng.random() < .6 else {}
    call('userinfo', given, state=st)
    given = {}
    if rng.random() < .6:
        given['id_token_hint'] = tr['id_token']
    if rng.random() < .6:
        given['post_logout_redirect_uri'] = world.BASE + '/post_logout'
    if rng.random() < .5:
        given['state'] = 'x' * 32
    call('end_session', given, state=st)
    c.equal(freeze(cnf), before, 'the configuration was modified')


def told(c, rng, i):
    """What pre and post functions are told: the caller's arguments go before what is configured for them."""
    o = opmod.OP(c.net, 'https://op.example.com', 0)
    names = ['x_a', 'x_b', 'x_c']
    svc = world.services()
    name = rng.choice(['authorization', 'authorization', 'accesstoken'])
    conf = {k: {n: '%s-conf-%s' % (k, n) for n in names if rng.random() < .6} for k in ('pre_construct', 'post_construct')}
    pre = rng.choice([['pre_nothing'], ['pre_more'], ['pre_mark', 'pre_more']])
    svc[FSVC[name]].setdefault('kwargs', {})['conf'] = {k: dict(v) for k, v in conf.items() if v or rng.random() < .5}
    svc[FSVC[name]]['pre_functions'] = [{'function': 'ext_functions.' + f} for f in pre]
    svc[FSVC[name]]['post_functions'] = [{'function': 'ext_functions.post_mark'}]
    cnf = world.static_conf(o, response_type='code', svc=svc)
    h = world.handler({o.issuer: cnf})
    before = freeze(h.client_configs)
    s = world.begin(c, h, o)
    srv = h.issuer2rp[o.issuer].client_get('service', name)
    for k in range(3):
        said = {n: 'said-%d-%s' % (k, n) for n in names if rng.random() < .5}
        beh = {n: 'beh-%d-%s' % (k, n) for n in names + ['pre_more'] if rng.random() < .4}
        args = {'state': s.state, 'redirect_uri': 'https://rp.example.org/cb'}
        args.update({'response_type': 'code'} if name == 'authorization' else {'code': 'abc', 'grant_type': 'authorization_code'})
        kw = {'behaviour_args': dict(beh)} if beh or rng.random() < .3 else {}
        del ext_functions.TRACE[:]
        srv.get_request_parameters(request_args=args, state=s.state, **dict(said, **kw))
        calls = {t[0]: t[3] for t in ext_functions.TRACE}
        c.equal(sorted(calls), sorted(pre + ['post_mark']), 'functions called')
        want = dict(conf['pre_construct'], **said)
        for f in pre:
            c.equal({n: calls[f].get(n) for n in names}, {n: want.get(n) for n in names}, 'what a pre function was told', (conf, said))
        want = dict(conf['post_construct'], **({'pre_more': 1} if 'pre_more' in pre else {}))
        want.update(beh)
        c.equal({n: calls['post_mark'].get(n) for n in names + ['pre_more']}, {n: want.get(n) for n in names + ['pre_more']},
                'what a post function was told', (conf, beh))
        c.ev('functions told')
        c.seen('told', name, tuple(pre), len(said), len(beh), tuple(len(v) for v in conf.values()))
    c.equal(freeze(h.client_configs), before, 'the configuration was modified')
    del ext_functions.TRACE[:]


def run(r):
    r.cases('told', 40, told, thorough=1500)
    r.cases('callers', 150, callers, thorough=5000)
    r.cases('request', 900, request, thorough=60000)
    r.cases('service', 200, service_level, thorough=8000)
    r.cases('independent', 120, independent, thorough=3000)
    r.cases('functions', 60, functions, thorough=2500)
