"""C27: session status requests, services for particular providers, services by name."""
import importlib
import inspect
import json
import os
import sys
from urllib.parse import parse_qsl, urlencode, urlsplit

import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

from oidcrp.service import Service
from oidcrp.service_factory import service_factory

RULE = ('A case is a history of interleaved sessions. status: after each step a session status request is built for some session and '
        'read back; the ID Token in it is compared byte for byte with those the provider issued for that session. providers: the '
        'sessions are at providers that deviate from the standards, each in its own way; every request is read as that provider '
        'would and every result compared with what it returned for that session. by name: every service class of the package is '
        'looked up by name in several directory lists. Non-trivial: a request or a result that was judged; distinct by (provider, '
        'response type, source of the ID Token or of the token).')
ASSUMPTIONS = ['The provider that a service was written for is represented by what its documentation says (urlencoded token response '
               'at GitHub, user information without sub, token in the query part).']

ISS = ['https://op.example.com', 'https://login.example.net/x/', 'https://third.example.org:8443']
STATUS = {'check_session': {'class': 'oidcrp.oidc.check_session.CheckSession'},
          'check_id': {'class': 'oidcrp.oidc.check_id.CheckID'}}


def status(c, rng, i):
    os.chdir(c.dir)
    ws, confs = [], {}
    for k, iss in enumerate(rng.sample(ISS, rng.randint(1, 3))):
        o = opmod.OP(c.net, iss, k, tag='op%d' % k)
        o.rp_jwks = world.rp_public_jwks()
        o.idt_on_refresh = rng.random() < .6
        if rng.random() < .4:
            o.sub_of = lambda g: 'same-user'
        rt = rng.choice(['code', 'code', 'id_token', 'code id_token', 'id_token token', 'code id_token token', 'code token'])
        svc = world.services()
        svc.update({k2: dict(v) for k2, v in STATUS.items()})
        cnf, desc = world.gen_conf(rng, o, rt=rt, auth=rng.choice(world.AUTHS[:2]), svc=svc)
        key = rng.choice([iss, 'name-%d' % k])
        confs[key] = cnf
        ws.append(dict(op=o, key=key, rt=rt, desc=desc))
    h = world.handler(confs)
    ep = rng.choice(['https://op.example.com/check', 'https://op.example.com/check?tenant=a', 'https://op.example.com/c/%7Eb'])
    sessions = []

    def start():
        w = rng.choice(ws)
        s = world.begin(c, h, w['op'], w['key'])
        s.w, s.hint, s.gone = w, [], False
        sessions.append(s)
        if rng.random() < .15:
            return
        world.answer(c, s)
        fin = {}
        if {'code', 'token'} <= set(w['rt'].split()) and rng.random() < .7:
            fin = {'behaviour_args': {'collect_tokens': True}}
        world.finalize(c, h, s, **fin)
        if 'id_token' in s.resp:
            s.hint.append((s.resp['id_token'], 'auth'))
        if s.grant.get('last', {}).get('id_token'):
            s.hint.append((s.grant['last']['id_token'], 'token'))

    def refresh():
        cand = [s for s in sessions if s.grant and s.grant['rts'] and not s.gone]
        if not cand:
            return
        s = rng.choice(cand)
        CLOCK.advance(rng.randint(0, 100))
        h.refresh_access_token(s.state)
        t = s.grant['last'].get('id_token')
        if t:
            s.hint.append((t, 'refresh'))

    def clear():
        s = rng.choice(sessions)
        if not s.gone:
            h.clear_session(s.state)
            s.gone = True

    def ask():
        s = rng.choice(sessions)
        cl = h.issuer2rp[s.op.issuer]
        srv = cl.client_get('service', 'check_session')
        cid = cl.client_get('service', 'check_id')
        if s.gone:
            c.refused(lambda: srv.get_request_parameters(state=s.state, endpoint=ep), 'status request for a session that is gone',
                      allow=(KeyError,))
            c.refused(lambda: cid.construct({}, state=s.state), 'ID check for a session that is gone', allow=(KeyError,))
            c.seen('gone', s.w['desc'])
            return
        before = world.record(h, s.state)
        n0 = len(c.net.log)
        if not s.hint:
            try:
                q = srv.get_request_parameters(state=s.state, endpoint=ep)
            except Exception:
                c.ev('status requests refused for want of an ID Token')
            else:
                c.check('id_token' not in dict(parse_qsl(urlsplit(q['url']).query)), 'ID Token of another session in a status request', q['url'])
            c.equal(world.record(h, s.state), before, 'a status request changed the session')
            return
        tok, src = s.hint[-1]
        args = rng.choice([None, {}])
        info = srv.get_request_parameters(request_args=args, state=s.state, endpoint=ep)
        u, e = urlsplit(info['url']), urlsplit(ep)
        c.equal((u.scheme, u.netloc, u.path), (e.scheme, e.netloc, e.path), 'status request to another place', info['url'])
        q = parse_qsl(u.query, keep_blank_values=True)
        for pair in parse_qsl(e.query):
            c.check(pair in q, 'query part of the endpoint lost', info['url'])
            q.remove(pair)
        c.equal(q, [('id_token', tok)], 'ID Token in a status request', src)
        c.equal(cid.construct({}, state=s.state).get('id_token'), tok, 'ID Token in an ID check', src)
        c.equal(world.record(h, s.state), before, 'a status request changed the session')
        c.equal(len(c.net.log), n0, 'building a status request sent something')
        c.ev('status requests judged')
        c.seen(s.w['rt'], src, len(sessions))

    start()
    for _ in range(rng.randint(4, 14)):
        rng.choice([start, refresh, refresh, ask, ask, ask, clear] if rng.random() < .3 else [start, refresh, ask, ask])()
    ask()


class Odd(opmod.OP):
    """A provider that follows the standards only so far."""
    kind = ''

    def do_token_endpoint(self, rec):
        res = opmod.OP.do_token_endpoint(self, rec)
        if res[0] != 200:
            return res
        r = json.loads(res[2])
        if self.kind == 'github':
            r.pop('expires_in', None)
            rec.info['grant']['last'] = r
            return 200, {'Content-Type': self.ctype}, urlencode(r)
        if self.kind == 'form':
            rec.info['grant']['last'] = r
            return 200, {'Content-Type': self.ctype}, urlencode(r)
        if self.kind == 'linkedin':
            r = {k: v for k, v in r.items() if k in ('access_token', 'expires_in')}
            rec.info['grant']['last'] = r
            return jresp(r)
        return res

    def do_userinfo_endpoint(self, rec):
        q = dict(rec.query)
        auth = rec.headers.get('authorization', '')
        way = [w for w, v in (('header', auth.startswith('Bearer ')), ('query', 'access_token' in q), ('body', b'access_token=' in rec.body)) if v]
        rec.info['way'] = way
        tok = {'header': auth[7:], 'query': q.get('access_token'), 'body': dict(rec.form()).get('access_token') if rec.body else None}.get(way[0] if way else '')
        g = self.access.get(tok)
        if g is None:
            return self.err('invalid_token', 401)
        rec.info.update(grant=g, token=tok)
        if self.kind == 'github':
            ui = {'login': g['sub'], 'id': 1000 + g['no'], 'name': None if self.nulls else 'N ' + g['sub'], 'site_admin': False, 'url': 'https://api/' + g['sub'],
                  'plan': {'name': 'Medium', 'space': 400}}
        elif self.kind == 'linkedin':
            ui = {'id': g['sub'], 'firstName': 'F' + g['sub'], 'lastName': 'L', 'headline': 'å & <b>',
                  'siteStandardProfileRequest': {'url': 'https://x/' + g['sub']}}
            if self.nulls:
                ui.pop('siteStandardProfileRequest')
        else:
            ui = self.ui_for(g)
        g['ui'] = ui
        return jresp(ui)


def odd_conf(rng, o, kind):
    svc = {'authorization': {'class': 'oidcrp.oidc.authorization.Authorization'}}
    if kind in ('github', 'linkedin'):
        svc['access_token'] = {'class': 'oidcrp.provider.%s.AccessToken' % kind}
        svc['userinfo'] = {'class': 'oidcrp.provider.%s.UserInfo' % kind}
        if kind == 'github' and rng.random() < .5:
            svc['userinfo']['kwargs'] = {'conf': {'default_authn_method': ''}}
    elif kind == 'form':
        # ordinary services that are told about the deviations
        svc['access_token'] = {'class': 'oidcrp.oidc.access_token.AccessToken', 'kwargs': {'conf': {'response_body_type': 'urlencoded'}}}
        svc['refresh_access_token'] = {'class': 'oidcrp.oidc.refresh_access_token.RefreshAccessToken',
                                       'kwargs': {'conf': {'response_body_type': 'urlencoded'}}}
        svc['userinfo'] = {'class': 'oidcrp.oidc.userinfo.UserInfo', 'kwargs': {'conf': {'default_authn_method': ''}}}
    elif kind == 'facebook':
        svc['access_token'] = {'class': 'oidcrp.oidc.access_token.AccessToken', 'kwargs': {'conf': {'default_authn_method': ''}}}
        svc['userinfo'] = {'class': 'oidcrp.oidc.userinfo.UserInfo', 'kwargs': {'conf': {'default_authn_method': ''}}}
    else:
        svc = world.services()
    auth = {'github': '', 'facebook': '', 'linkedin': 'client_secret_post'}.get(kind, 'client_secret_basic')
    scope = {'github': ['user', 'public_repo'], 'linkedin': ['r_basicprofile'], 'facebook': ['email']}.get(kind, ['openid', 'email'])
    cnf = world.static_conf(o, auth=auth, scope=scope, svc=svc)
    if rng.random() < .5:     # the form the documentation uses
        cnf['behaviour']['token_endpoint_auth_method'] = [auth]
    if kind in ('linkedin', 'facebook') and rng.random() < .5:
        cnf['userinfo_request_method'] = 'GET'
    return cnf


WAY = {'github': ['query'], 'form': ['query'], 'facebook': ['query'], 'linkedin': ['header'], 'plain': ['header']}


def providers(c, rng, i):
    os.chdir(c.dir)
    ws, confs = [], {}
    kinds = rng.sample(['github', 'linkedin', 'facebook', 'plain', 'form'], rng.randint(1, 4))
    for k, kind in enumerate(kinds):
        o = Odd(c.net, 'https://%s.example.com/login' % kind, k, tag=kind)
        o.kind, o.nulls = kind, rng.random() < .3
        o.ctype = rng.choice(['application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=utf-8'])
        if rng.random() < .5:
            o.md['userinfo_endpoint'] += '?format=json'
        if kind != 'plain':
            o.idt_at_token = False
        confs[kind] = odd_conf(rng, o, kind)
        ws.append(dict(op=o, kind=kind))
    h = world.handler(confs)
    live, n = [], rng.randint(2, 6)
    todo = [rng.choice(ws) for _ in range(n)]
    while todo or live:
        if todo and (not live or rng.random() < .5):
            w = todo.pop()
            s = world.begin(c, h, w['op'], w['kind'])
            s.w = w
            live.append(s)
            continue
        s = live.pop(rng.randrange(len(live)))
        o, kind = s.op, s.w['kind']
        world.answer(c, s)
        n0 = len(c.net.log)
        r = world.finalize(c, h, s)
        new = c.net.log[n0:]
        c.equal([(x.op, x.endpoint) for x in new if x.endpoint != 'jwks_uri'], [(o, 'token_endpoint'), (o, 'userinfo_endpoint')], 'requests of a login')
        tr, ur = [x for x in new if x.endpoint != 'jwks_uri']
        cl = o.clients[confs[kind]['client_id']]
        a = tr.info['auth']
        c.check(a['ok'] and a['client_id'] == cl['client_id'], 'client not authenticated at the token endpoint', a)
        if kind in ('linkedin', 'facebook'):
            c.equal(a['method'], 'client_secret_post', 'client authentication')
        c.equal(tr.info['params'].get('code'), s.resp['code'], 'another code')
        c.equal(ur.info.get('way'), WAY[kind], 'how the token was sent to the user info endpoint', kind)
        if '?' in o.md['userinfo_endpoint']:
            c.check(('format', 'json') in ur.query, 'query part of the user info endpoint lost', ur.url)
        c.equal(ur.info['token'], s.grant['ats'][-1], 'another access token')
        c.equal(r['state'], s.state, 'state of the result')
        c.equal(r['token'], s.grant['ats'][-1], 'access token of the result')
        got = world.plain(r['userinfo'])
        want = s.grant['ui']
        c.equal({k: v for k, v in got.items() if v is not None}, {k: v for k, v in want.items() if v is not None}, 'user info is not what the provider returned', kind)
        if kind != 'plain':
            c.equal(r['id_token'], None, 'an ID Token from nowhere')
        rec = world.record(h, s.state)
        c.equal(rec['token_response']['access_token'], s.grant['ats'][-1], 'access token of the session')
        c.equal({k: v for k, v in rec['user_info'].items() if v is not None}, {k: v for k, v in want.items() if v is not None}, 'user info of the session')
        for x in new:
            for w in ws:
                if w['op'] is not o:
                    sec = confs[w['kind']]['client_secret']
                    c.check(sec not in x.text(), 'client secret of another client', x.brief())
        if kind == 'form' and s.grant['rts'] and rng.random() < .6:
            t = h.refresh_access_token(s.state)
            c.equal(t['access_token'], s.grant['ats'][-1], 'refreshed access token')
            if o.expires_in is not None:
                c.equal((int(t['expires_in']), h.get_valid_access_token(s.state)), (o.expires_in, (s.grant['ats'][-1], int(CLOCK.now) + o.expires_in)),
                        'lifetime of the refreshed token')
        # again, by itself
        if rng.random() < .4:
            ui = h.get_user_info(s.state)
            ur = c.net.log[-1]
            c.equal((ur.info.get('way'), ur.info.get('token')), (WAY[kind], s.grant['ats'][-1]), 'user info asked for again', kind)
            c.equal({k: v for k, v in world.plain(ui).items() if v is not None}, {k: v for k, v in want.items() if v is not None}, 'user info asked for again')
        c.ev('logins at odd providers judged')
        c.seen(kind, tuple(sorted(kinds)), o.ctype if kind == 'github' else '', '?' in o.md['userinfo_endpoint'], o.nulls)


def bad(c, rng, i):
    """Answers without what the service demands are no success."""
    os.chdir(c.dir)
    kind = rng.choice(['github', 'linkedin'])
    o = Odd(c.net, 'https://%s.example.com/login' % kind, 0, tag=kind)
    o.kind, o.nulls, o.ctype, o.idt_at_token = kind, False, 'application/x-www-form-urlencoded', False
    h = world.handler({kind: odd_conf(rng, o, kind)})
    s = world.begin(c, h, o, kind)
    world.answer(c, s)
    what = rng.choice(['no token', 'no type', 'no id', 'error'] if kind == 'github' else ['no token', 'no expires', 'no id', 'error'])

    def spoil(rec, res):
        if res[0] != 200:
            return res
        d = dict(parse_qsl(res[2])) if kind == 'github' else json.loads(res[2])
        if what == 'error':
            d = {'error': 'bad_verification_code', 'error_description': 'expired'}
        elif what != 'no id':
            d.pop({'no token': 'access_token', 'no type': 'token_type', 'no expires': 'expires_in'}[what])
        return 200, res[1], urlencode(d) if kind == 'github' else json.dumps(d)

    def anon(rec, res):
        d = json.loads(res[2])
        d.pop('id', None)
        return jresp(d)
    o.hook['token_endpoint'] = spoil
    if what == 'no id':
        o.hook['userinfo_endpoint'] = anon
        if kind == 'github':
            r = h.finalize(o.issuer, dict(s.resp))
            c.check('id' not in r['userinfo'], 'claim that the provider did not return', r['userinfo'].to_dict())
            c.seen(kind, what)
            return
    try:
        r = h.finalize(o.issuer, dict(s.resp))
    except Exception:
        pass
    else:
        c.check('error' in r, 'incomplete answer of the provider taken for success', (kind, what, r))
    rec = world.record(h, s.state) or {}
    if what != 'no id':
        c.check(not rec.get('token_response', {}).get('access_token'), 'token of an answer that was not a success kept', rec.get('token_response'))
    else:
        c.check(not rec.get('user_info'), 'user info that is not complete kept', rec.get('user_info'))
    c.seen(kind, what)


def package_services():
    """name -> directory -> class, from the modules themselves."""
    root = os.path.dirname(inspect.getfile(importlib.import_module('oidcrp')))
    res = {}
    for d in ('oidc', 'oauth2', 'oauth2/client_credentials', 'provider'):
        for f in sorted(os.listdir(os.path.join(root, d))):
            if not f.endswith('.py') or f.startswith('__'):
                continue
            m = importlib.import_module('oidcrp.%s.%s' % (d.replace('/', '.'), f[:-3]))
            for n, cls in vars(m).items():
                if inspect.isclass(cls) and issubclass(cls, Service):
                    res.setdefault(n, {}).setdefault(d, set()).add(cls)
    return res


def by_name(c, rng, i):
    allsrv = package_services()
    dirs = ['oidc', 'oauth2', 'oauth2/client_credentials', 'provider']
    name = rng.choice(sorted(allsrv) + ['Nope', 'authorization', ''])
    use = rng.sample(dirs, rng.randint(0, 4))
    want = None
    for d in use:
        if d in allsrv.get(name, {}):
            want = allsrv[name][d]
            break
    path, mods = list(sys.path), set(sys.modules)
    mark = object()
    try:
        got = service_factory(name, use, client_get=mark, conf={'x': i})
        c.equal(sys.path, path, 'the search path for modules was changed')
        for m in set(sys.modules) - mods:
            c.check(m.startswith('oidcrp'), 'module loaded under another name', m)
    finally:
        sys.path[:] = path
    if want is None:
        c.equal(got, None, 'a service nobody asked for', (name, use))
    else:
        c.check(type(got) in want, 'another service than the first of that name', (name, use, repr(type(got))))
        c.check(got.client_get is mark and got.conf == {'x': i}, 'arguments of a service lost', name)
    c.ev('services looked up by name')
    c.seen(name, tuple(use))


def run(r):
    r.rule, r.assumptions = RULE, ASSUMPTIONS
    r.cases('status', 160, status, thorough=6000, share=.4)
    r.cases('providers', 160, providers, thorough=6000, share=.4)
    r.cases('bad', 40, bad, thorough=400, share=.1)
    r.cases('by name', 120, by_name, thorough=2000, share=.1)
