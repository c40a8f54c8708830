"""C21: serialisation of requests, deserialisation of responses, URL joining and file names.

Oracle: what left the machine (transport monitor) or was returned, decoded with urllib/json only,
is compared with what the caller asked for.
"""
import json
import os
import string
from urllib.parse import parse_qsl, quote, quote_plus, urlencode, urlsplit

from requests.structures import CaseInsensitiveDict

import jose
import world as W
from core import Violation, short
from net import jresp
from op import OP

from oidcmsg.message import Message
from oidcmsg.oauth2 import ResponseMessage

from oidcrp import util
from oidcrp.oauth2 import Client
from oidcrp.service import Service
from oidcrp.service_context import ServiceContext
from oidcrp.util import add_path, get_http_body, get_http_url

FORM, JSON, JOSE = 'application/x-www-form-urlencoded', 'application/json', 'application/jose'

UNI = ('\u00e5\u00e4\u00f6\u00c5\u00df\u00f1\u20ac\u4e2d\u6587\u65e5\u672c\U0001f600\u0000\u0007\t\r\n\u2028\u200d'
       '\u0301\ufeff\ufffd')
DELIM = ' +&=%/?#:;@!$\'()*,"<>[]{}|\\^~`-_.'


def text(rng, lo=1, hi=14):
    k = rng.random()
    if k < .15:
        return rng.choice(['%2B', '%', '%%', '+', '&', '=', 'a=b', 'a&b=c', '?', '#', 'x?y', 'x#y', '//', '%20', '&amp;',
                           'http://a.b/c?d=e#f', '{"a": 1}', '["x"]', 'true', 'null', '0', '1e3', '-', "'", '"', '\\',
                           'a b', ' a', 'a ', '\u00e5', '\U0001f600', 'a\r\nB: c', ';', 'a;b', 'a,b', '[]', '{}', 'None'])
    alpha = string.ascii_letters + string.digits
    if k > .3:
        alpha += DELIM
    if k > .6:
        alpha += UNI
    return ''.join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


def name(rng, plain=False):
    if plain or rng.random() < .6:
        return 'p_' + ''.join(rng.choice(string.ascii_letters + string.digits + '_-.') for _ in range(rng.randint(1, 7)))
    return 'p' + text(rng, 1, 6)


def shape(v):
    if isinstance(v, str):
        return (bool(set(v) & set('&=?#%+')), any(ord(x) > 127 for x in v), any(ord(x) < 32 for x in v), len(v) > 20)
    return type(v).__name__


def endpoint(rng, host):
    """An endpoint URL: (url, its own query pairs)."""
    path = rng.choice(['', '/', '/x', '/x/', '/a/b.c', '/a%20b', '/a;v=1', '/x/y~z', '/%C3%A5', '/a:b@c', '/tenant=1/t'])
    q = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        q.append((name(rng), text(rng) if rng.random() < .8 else ''))
    if q and rng.random() < .3:
        q.append((q[0][0], 'again'))
    url = host + path
    if q:
        url += '?' + (urlencode(q) if rng.random() < .6 else '&'.join(quote(a, safe='') + '=' + quote(b, safe='') for a, b in q))
    frag = ''
    if rng.random() < .15:
        frag = rng.choice(['frag', 'a=b', '/x'])
        url += '#' + frag
    return url, q, frag


class Gen(Service):
    msg_type = Message
    response_cls = Message
    error_msg = ResponseMessage
    endpoint_name = 'gen_endpoint'
    synchronous = True
    service_name = 'gen'
    http_method = 'GET'
    default_authn_method = ''


class Req(Gen):
    """Packages the request as a JWT, like a request object."""

    def do_post_construct(self, request, **kw):
        return request.to_jwt(key=[], algorithm='none')


HOST = 'https://gen.example.com'


def client(c, conf=None, cls=Gen, provider=None, **kw):
    cnf = {'client_id': 'genclient', 'client_secret': 'a' * 40, 'redirect_uris': ['https://rp.example.org/cb'],
           'issuer': HOST, 'provider_info': provider or {'gen_endpoint': HOST + '/gen'}, 'behaviour': {}}
    cnf.update(kw)
    return Client(config=cnf, services={'gen': {'class': cls, 'kwargs': {'conf': conf or {}}}})


def pairs(params):
    res = []
    for k, v in params.items():
        if isinstance(v, list):
            res.extend((k, x) for x in v)
        else:
            res.append((k, v))
    return sorted(res)


def gen_params(rng, json_ok):
    res = {}
    for _ in range(rng.randint(0, 5)):
        k = rng.random()
        if k < .12:
            v = [text(rng) for _ in range(rng.randint(2, 3))]
        elif json_ok and k < .3:
            v = rng.choice([1, 0, -5, True, False, {'a': text(rng), 'b': [1, 'x']}, [1, 2], 1.5, 10 ** 12,
                            {'k': {'l': text(rng)}}, ['one']])
        else:
            v = text(rng)
        res[name(rng)] = v
    return res


def check_url(c, url, ep, want, kind):
    """url is ep with exactly the pairs of want added to the query."""
    e, u = urlsplit(ep), urlsplit(url)
    c.equal((u.scheme, u.netloc, u.path, u.fragment), (e.scheme, e.netloc, e.path, e.fragment), kind + ': endpoint changed', ep)
    own = parse_qsl(e.query, keep_blank_values=True)
    got = parse_qsl(u.query, keep_blank_values=True)
    c.equal(got[:len(own)] if sorted(got[:len(own)]) == sorted(own) else sorted(got), own if sorted(got[:len(own)]) == sorted(own)
            else sorted(own + want), kind + ': query of the endpoint changed', ep)
    c.equal(sorted(got), sorted(own + want), kind + ': parameters in the URL', url)


def f_service(c, rng, i):
    """A service of one's own: any parameters, endpoint, method and body type."""
    method = rng.choice(['GET', 'GET', 'DELETE', 'POST', 'POST', 'POST'])
    btype = rng.choice(['urlencoded', 'json', rng.choice(['jws', 'jwe', 'jose'])] if method == 'POST' else ['urlencoded', 'json'])
    ep, own, frag = endpoint(rng, HOST)
    how = rng.choice(['conf', 'call', 'provider'])
    conf = {}
    if how == 'conf':
        conf = {'http_method': method, 'request_body_type': btype}
    cl = client(c, conf, Req if btype[0] == 'j' and btype != 'json' else Gen, provider={'gen_endpoint': ep})
    srv = cl.client_get('service', 'gen')
    params = gen_params(rng, method == 'POST' and btype != 'urlencoded')
    kw = {} if how == 'conf' else {'method': method, 'request_body_type': btype}
    if how == 'call' and rng.random() < .4:
        ep, own, frag = endpoint(rng, HOST)
        kw['endpoint'] = ep
    before = json.dumps(params)
    info = srv.get_request_parameters(request_args=params, **kw)
    c.log('request', params=params, info=info)
    c.equal(json.dumps(params), before, 'request arguments changed')
    c.equal(info['method'], method, 'method')
    check_info(c, info, method, btype, ep, params)
    c.seen('built', method, btype, how, bool(own), bool(frag), tuple(sorted(map(str, map(shape, params.values()))))[:3])
    # and on the wire
    answer = {'ok': 'yes'}
    c.net.attach(HOST, lambda rec: jresp(answer))
    r = cl.service_request(srv, **{k: v for k, v in info.items()})
    c.equal(W.plain(r), answer, 'response')
    rec = c.net.log[-1]
    c.equal(len(c.net.log), 1, 'number of requests')
    c.equal(rec.method, method, 'method on the wire')
    want = pairs(params) if method != 'POST' else []
    e = urlsplit(ep)
    c.equal((rec.scheme, rec.netloc), (e.scheme, e.netloc), 'wire: other host')
    c.equal(sorted(parse_qsl(rec.raw_query, keep_blank_values=True)),
            sorted(parse_qsl(e.query, keep_blank_values=True) + want), 'wire: parameters in the URL', rec.url)
    check_body(c, rec.body.decode('utf-8'), rec.headers.get('content-type'), method, btype, params)
    c.ev('requests on the wire compared')


def check_info(c, info, method, btype, ep, params):
    if method == 'POST':
        c.equal(info['url'], ep, 'POST: URL changed')
        check_body(c, info['body'], info['headers']['Content-Type'], method, btype, params)
    else:
        c.check(not info.get('body'), 'body in a %s request' % method, short(info))
        check_url(c, info['url'], ep, pairs(params), 'info')


def check_body(c, body, ctype, method, btype, params):
    c.ev('bodies decoded')
    if method != 'POST':
        c.check(not body, 'wire: body in a %s request' % method, body)
        return
    if btype == 'urlencoded':
        c.equal(ctype, FORM, 'content type of the body')
        c.equal(sorted(parse_qsl(body, keep_blank_values=True)), pairs(params), 'form body', body)
    elif btype == 'json':
        c.equal(ctype, JSON, 'content type of the body')
        c.equal(json.loads(body), params, 'JSON body', body)
    else:
        c.equal(ctype, JOSE, 'content type of the body')
        h, p = jose.parts(body)[:2]
        c.equal(p, params, 'JOSE body', body)


def f_functions(c, rng, i):
    """The functions used by all services."""
    ep, own, frag = endpoint(rng, rng.choice([HOST, 'http://a.b:8080', 'https://u:p@h.example', 'https://[::1]:44']))
    params = gen_params(rng, False)
    m = Message(**params)
    method = rng.choice(['GET', 'DELETE', 'POST'])
    url = get_http_url(ep, m, method)
    if method == 'POST' or not params:
        c.equal(url, ep, '%s: URL changed' % method)
    else:
        check_url(c, url, ep, pairs(params), 'get_http_url')
        e = urlsplit(ep)
        if e.query:
            c.check(urlsplit(url).query.startswith(e.query + '&'), 'query of the endpoint rewritten', url)
    c.equal({k: m[k] for k in m.keys()}, params, 'message changed')
    suffix = rng.choice(['', '; charset=utf-8', ';charset="UTF-8"'])
    c.equal(sorted(parse_qsl(get_http_body(m, FORM + suffix), keep_blank_values=True)), pairs(params), 'form body')
    c.equal(json.loads(get_http_body(m, JSON + suffix)), params, 'JSON body')
    c.equal(get_http_body('a.b.c', JOSE + suffix), 'a.b.c', 'JOSE body')
    c.refused(lambda: get_http_body(m, rng.choice(['text/plain', 'application/xml', 'multipart/form-data'])),
              'unsupported body type not refused')
    c.seen('functions', method, bool(own), bool(frag), len(params))


SP = {'scope', 'response_type', 'prompt', 'ui_locales', 'claims_locales', 'acr_values'}


def as_text(k, v, out):
    if isinstance(v, bool):
        out.append((k, {True: ('true', 'True'), False: ('false', 'False')}[v]))
    elif isinstance(v, str):
        out.append((k, v))
    elif isinstance(v, (int, float)):
        out.append((k, str(v)))
    elif isinstance(v, list):
        if k in SP:
            out.append((k, ' '.join(v)))
        else:
            out.extend((k, x if isinstance(x, str) else x) for x in v)
    else:
        out.append((k, W.plain(v)))


def compare_message(c, got, req, where):
    """Decoded pairs against the request message that was built."""
    want = []
    for k in req.keys():
        v = req[k]
        if v in ('', [], None):
            continue
        if isinstance(v, list) and all(isinstance(x, str) for x in v) and (k, ' '.join(v)) in got:
            # what the message class of oidcmsg prescribes for this parameter
            v = ' '.join(v)
        as_text(k, v, want)
    g = list(got)
    for k, v in want:
        for n, (k2, v2) in enumerate(g):
            if k2 != k:
                continue
            if isinstance(v, tuple):
                ok = v2 in v
            elif isinstance(v, str):
                ok = v2 == v
            else:
                try:
                    ok = json.loads(v2) == v
                except ValueError:
                    ok = False
            if ok:
                del g[n]
                break
        else:
            raise Violation(where + ': parameter lost or changed', '%s=%s not in %s' % (k, short(v), short(got)))
        c.run.events['assertions'] += 1
    c.check(not g, where + ': parameter not asked for', short(g))


def f_services(c, rng, i):
    """The library's own services, with extra parameters, configured endpoints and overridden methods."""
    op = OP(c.net, 'https://op%d.example.com' % i, 0)
    cnf = W.static_conf(op, response_type='code', auth=rng.choice(W.AUTHS))
    eps = {}
    for n in ('token_endpoint', 'authorization_endpoint', 'userinfo_endpoint', 'end_session_endpoint',
              'registration_endpoint'):
        e, own, frag = endpoint(rng, op.issuer)
        eps[n] = e.split('#')[0] if rng.random() < .7 else e
    cnf['provider_info'].update(eps)
    cnf['services'] = W.services('web_finger', 'discovery')
    h = W.handler({op.issuer: cnf})
    extra = {name(rng): text(rng) for _ in range(rng.randint(0, 4))}
    s = h.begin(op.issuer, req_args=dict(extra, **({'ui_locales': ['sv', 'en'], 'max_age': 100,
                                                        'claims': {'userinfo': {'email': {'essential': True}}}}
                                                       if rng.random() < .4 else {})))
    cl = h.issuer2rp[op.issuer]
    u = urlsplit(s['url'])
    ae = urlsplit(eps['authorization_endpoint'])
    c.equal((u.scheme, u.netloc, u.path, u.fragment), (ae.scheme, ae.netloc, ae.path, ae.fragment), 'authorization endpoint changed')
    q = parse_qsl(u.query, keep_blank_values=True)
    for k, v in extra.items():
        c.check((k, v) in q, 'authorization request: parameter lost or changed', '%r=%r in %s' % (k, v, s['url']))
    for k, v in parse_qsl(ae.query, keep_blank_values=True):
        c.check((k, v) in q, 'authorization request: query of the endpoint lost', s['url'])
    state = s['state']
    ctx = cl.client_get('service_context')
    code, at, rt = text(rng), text(rng, 3, 20).strip() or 'x', text(rng)
    ctx.state.store_item({'code': code, 'state': state}, 'auth_response', state)
    at = ''.join(x for x in at if 32 < ord(x) < 127) or 'tok'
    ctx.state.store_item({'access_token': at, 'refresh_token': rt, 'token_type': 'Bearer'}, 'token_response', state)
    ctx.state.store_item({'id_token': 'a.b.c'}, 'xx', state)
    which = rng.choice(['accesstoken', 'refresh_token', 'userinfo', 'end_session', 'registration', 'authorization'])
    srv = cl.client_get('service', which)
    method = rng.choice(['', 'GET', 'POST'])
    btype = rng.choice(['', 'urlencoded', 'json'])
    extra = {name(rng): text(rng) for _ in range(rng.randint(0, 4))}
    kw = {}
    args = dict(extra)
    if which in ('accesstoken', 'refresh_token', 'userinfo', 'authorization', 'end_session'):
        kw['state'] = state
    if which == 'accesstoken':
        # what the caller says goes before what the session says
        args.update(code=rng.choice([code, text(rng)]), redirect_uri=rng.choice([cnf['redirect_uris'][0], 'https://rp.example.org/elsewhere']),
                    grant_type='authorization_code')
    if which == 'refresh_token' and rng.random() < .4:
        args['refresh_token'] = text(rng)
    if which == 'end_session':
        args['id_token_hint'] = 'x.y.z'
        args['state'] = text(rng)
    if which == 'registration':
        args.update(redirect_uris=['https://rp.example.org/' + quote(text(rng)), 'https://rp.example.org/b?x=' + quote(text(rng))],
                    client_name=text(rng))
    if which == 'authorization':
        args.update(redirect_uri=cnf['redirect_uris'][0], scope=['openid'], response_type='code', nonce=text(rng))
    if which == 'userinfo' and method == 'POST':
        kw['authn_method'] = rng.choice(['bearer_header', 'bearer_body'])
    want = dict(args)
    info = srv.get_request_parameters(request_args=args, method=method, request_body_type=btype, **kw)
    c.log(which, info=info)
    m = method or {'userinfo': 'GET', 'end_session': 'GET', 'authorization': 'GET'}.get(which, 'POST')
    c.equal(info['method'], m, which + ': method')
    req = info['request']
    if isinstance(req, Message):
        for k, v in want.items():
            c.check(k in req and (req[k] == v or req[k] == [v] or isinstance(req[k], list) and v in (' '.join(map(str, req[k])), list(req[k]))),
                    which + ': argument missing in the request', lambda: '%s=%r in %s' % (k, v, req))
    en = {'accesstoken': 'token_endpoint', 'refresh_token': 'token_endpoint', 'registration': 'registration_endpoint',
          'userinfo': 'userinfo_endpoint', 'end_session': 'end_session_endpoint', 'authorization': 'authorization_endpoint'}[which]
    ep = eps[en]
    e, u = urlsplit(ep), urlsplit(info['url'])
    own = parse_qsl(e.query, keep_blank_values=True)
    if m == 'POST':
        c.equal(info['url'], ep, which + ': POST URL changed')
        bt = btype or {'registration': 'json'}.get(which, 'urlencoded')
        if which in ('userinfo', 'authorization', 'end_session') and not btype:
            bt = srv.request_body_type
        ct = [v for k, v in info['headers'].items() if k.lower() == 'content-type']
        c.equal(ct, [FORM if bt == 'urlencoded' else JSON], which + ': content type')
        if bt == 'urlencoded':
            compare_message(c, parse_qsl(info['body'], keep_blank_values=True), req, which + ' form')
        else:
            got = json.loads(info['body'])
            for k, v in want.items():
                gv = got.get(k)
                c.check(gv == v or gv == [v] or isinstance(gv, str) and isinstance(v, list) and gv == ' '.join(v),
                        which + ' JSON: parameter lost or changed', lambda: '%s=%r in %s' % (k, v, got))
            c.equal(set(got), {k for k in req.keys() if req[k] not in ('', [], None)}, which + ' JSON: parameters')
    else:
        c.check(not info.get('body'), which + ': body in a GET request')
        c.equal((u.scheme, u.netloc, u.path, u.fragment), (e.scheme, e.netloc, e.path, e.fragment), which + ': endpoint changed', info['url'])
        got = parse_qsl(u.query, keep_blank_values=True)
        for p in own:
            c.check(p in got, which + ': query of the endpoint lost', info['url'])
            got.remove(p)
        compare_message(c, got, req, which + ' query')
    c.ev('requests of library services decoded')
    c.seen(which, m, btype, bool(own), tuple(sorted(map(str, map(shape, extra.values()))))[:2])


CT_JSON = ['application/json', 'application/json; charset=utf-8', 'application/json;charset=UTF-8', 'APPLICATION/JSON',
           'Application/Json; Charset=utf-8', 'application/jrd+json', 'application/jrd+json; charset=UTF-8', None, '']
CT_FORM = [FORM, FORM + '; charset=utf-8', FORM.upper(), FORM.title(), None]
CT_OTHER = ['text/plain', 'text/html; charset=utf-8', 'application/octet-stream', 'text/json', 'x']


def f_response(c, rng, i):
    """Response bodies: the content type decides, and without one the body does."""
    fmt = rng.choice(['json', 'json', 'urlencoded'])
    declared = rng.choice(['json', 'urlencoded'])
    status = rng.choice([200, 200, 200, 201, 202, 400, 401, 403])
    data = {}
    for _ in range(rng.randint(1, 5)):
        data[name(rng)] = text(rng)
    if fmt == 'json':
        data.update({name(rng): v for v in rng.sample([1, True, {'a': text(rng)}, [text(rng), 'x'], 10 ** 10, False], 2)})
    err = status >= 400
    if err:
        data['error'] = rng.choice(['invalid_request', 'invalid_grant', 'access_denied'])
        data['error_description'] = text(rng)
    k = rng.random()
    if k < .75:
        ct = rng.choice(CT_JSON if fmt == 'json' else CT_FORM)
    else:
        # nothing that tells: the type the service expects is used
        ct = rng.choice(CT_OTHER)
        if not err:
            declared = fmt
    if k >= .75 and err and not (fmt == 'json'):
        fmt = 'json'
    if fmt == 'json':
        body = json.dumps(data, ensure_ascii=rng.random() < .5 or (ct or '').startswith('text'), indent=rng.choice([None, 2]))
        if not ct:
            body = rng.choice(['', ' ', '\n']) + body
    else:
        data = {k: v for k, v in data.items() if isinstance(v, str)}
        body = urlencode(data)
        if rng.random() < .5:
            # '?' and '/' need not be escaped, in values (a name starting the body would make it look like a URL)
            body = '&'.join(quote_plus(k2) + '=' + quote_plus(v, safe='?/:@') for k2, v in data.items())
    cl = client(c, {'response_body_type': declared})
    srv = cl.client_get('service', 'gen')
    hd = [] if ct is None else [('Content-Type', ct)]
    if rng.random() < .3:
        hd = [(k2.lower(), v) for k2, v in hd] + [('X-Other', 'application/jwt')]
    c.net.attach(HOST, lambda rec: (status, hd, body.encode('utf-8')))
    info = srv.get_request_parameters(request_args={'a': 'b'})
    c.log('response', ct=ct, declared=declared, body=body, status=status)
    r = cl.service_request(srv, **info)
    got = W.plain(r)
    want = dict(data)
    if err:
        c.equal(got.pop('status_code', None), status, 'status of an error response')
    got = norm(got)
    want = norm(want)
    c.equal(got, want, 'response decoded wrongly (%s)' % ('error' if err else 'success'), 'content type %r, expected %s, body %r' % (ct, declared, body))
    c.ev('responses decoded')
    c.seen('response', fmt, declared, ct, status, len(data))


def norm(d):
    """Message keeps single-element lists of unknown names as they are; plain() parses JSON looking text."""
    return json.loads(json.dumps(W.plain(d)))


def f_flow(c, rng, i):
    """Token, user info and JWKS responses in every legal form, in a whole login."""
    op = OP(c.net, 'https://opf%d.example.com' % i, 0)
    cnf = W.static_conf(op, response_type='code', scope=['openid', 'email'])
    uisig = rng.random() < .5
    if uisig:
        cnf['behaviour']['userinfo_signed_response_alg'] = 'RS256'
    h = W.handler({op.issuer: cnf})
    tform = rng.choice(['json', 'json', 'urlencoded'])
    tct = rng.choice([x for x in (CT_JSON if tform == 'json' else CT_FORM)])
    uct = rng.choice(['application/jwt', 'application/jwt; charset=utf-8', 'Application/JWT', 'APPLICATION/JWT;charset=UTF-8']
                     if uisig else [x for x in CT_JSON])
    nick = text(rng)
    seen = {}

    def tok(rec, res):
        status, hd, body = res
        d = json.loads(body)
        d['x_note'] = nick
        seen['tok'] = d
        hd = {} if tct is None else {'Content-Type': tct}
        if tform == 'json':
            return status, hd, json.dumps(d, ensure_ascii=False)
        return status, hd, urlencode({k: str(v) for k, v in d.items()})

    def ui(rec, res):
        status, hd, body = res
        g = rec.info['grant']
        d = {'sub': g['sub'], 'email': 'a@b.example', 'nickname': nick, 'address': {'formatted': nick}}
        seen['ui'] = d
        hd = {} if uct is None else {'Content-Type': uct}
        if uisig:
            return status, hd, jose.jws(dict(d, iss=op.issuer, aud=cnf['client_id']), 'RS256', op.rsa)
        return status, hd, json.dumps(d, ensure_ascii=False)
    op.hook['token_endpoint'], op.hook['userinfo_endpoint'] = tok, ui
    s = W.begin(c, h, op)
    W.answer(c, s)
    r = h.finalize(op.issuer, s.resp)
    c.log('types', tform=tform, tct=tct, uct=uct)
    c.check('error' not in r, 'login failed', r)
    c.equal(r['token'], s.grant['ats'][-1], 'access token')
    got = W.plain(r['userinfo'])
    for k, v in seen['ui'].items():
        c.equal(got.get(k), W.plain(v), 'user info decoded wrongly', '%s, content type %r' % (k, uct))
    rec = W.record(h, s.state)
    c.equal(rec['token_response'].get('x_note'), W.plain(nick), 'token response decoded wrongly', 'content type %r' % tct)
    c.ev('responses decoded', 2)
    c.seen('flow', tform, tct, uct, uisig)


def f_urlinfo(c, rng, i):
    """Authorization responses may be given as a URL, its query or fragment, a dict."""
    op = OP(c.net, 'https://opu%d.example.com' % i, 0)
    h = W.handler({op.issuer: W.static_conf(op, response_type='code')})
    s = W.begin(c, h, op)
    cl = h.issuer2rp[op.issuer]
    srv = cl.client_get('service', 'authorization')
    data = {'state': s.state, 'code': text(rng)}
    for _ in range(rng.randint(0, 3)):
        data[name(rng, True)] = text(rng)
    items = list(data.items())
    rng.shuffle(items)
    q = urlencode(items) if rng.random() < .5 else '&'.join(quote(k, safe='') + '=' + quote(v, safe='?/:@!$\'()*,;~'.replace(';', '') )
                                                           for k, v in items)
    cb = rng.choice([W.BASE + '/cb', W.BASE + '/cb/a=b', 'http://127.0.0.1:8080', 'com.app:/cb', 'https://rp.example.org/', '', 'cb', '/cb', '/cb/a=b'])
    form = rng.choice(['?', '#', 'bare', 'dict'])
    if form == 'dict':
        got = srv.parse_response(dict(data), sformat='dict')
    else:
        info = q if form == 'bare' else cb + form + q
        c.log('info', info=info)
        got = srv.parse_response(info, sformat='urlencoded')
    g = got.to_dict()
    for k, v in data.items():
        c.equal(g.get(k), v, 'authorization response decoded wrongly', '%s %s' % (form, q))
    c.ev('responses decoded')
    c.seen('urlinfo', form, cb, '?' in q, len(data))


def f_path(c, rng, i):
    """add_path, the JWKS URL, file names of one's own URLs."""
    base = rng.choice(['https://rp.example.org', 'https://rp.example.org/', 'https://rp.example.org/app', 'http://h:80/a/b/'])
    path = '/'.join(rng.choice(['a', 'b.json', 'static', 'x-y', '%20', '\u00e5']) for _ in range(rng.randint(1, 3)))
    tail = rng.choice(['', '/'])
    for p in (path, '/' + path, path + tail, '/' + path + tail):
        c.equal(add_path(base, p), base.rstrip('/') + '/' + p.lstrip('/'), 'base URL and path joined wrongly', '%r %r' % (base, p))
    h = W.handler({}, base=base, jwks_path=rng.choice(['', '/']) + 'static/jwks.json')
    c.equal(h.jwks_uri, base.rstrip('/') + '/static/jwks.json', 'JWKS URL')
    sc = ServiceContext(base_url=base, config={})
    c.equal(sc.base_url, base, 'base URL')
    name_ = path if rng.random() < .8 else rng.choice(['..a/b', 'a..', '.a', 'a/..b', '...'])
    url = base.rstrip('/') + '/' + name_
    fn = sc.filename_from_webname(url)
    c.equal(base.rstrip('/') + '/' + fn, url, 'file name does not map back', '%s -> %s' % (url, fn))
    c.check(not fn.startswith('/'), 'absolute file name', fn)
    other = base.rstrip('/') + '/' + 'z' + name_
    c.check(sc.filename_from_webname(other) != fn, 'two URLs, one file', other)
    b = base.rstrip('/')
    for f in ['https://evil.example/' + path, b + '.evil.example/' + path, 'http' + 's' * (not b.startswith('https')) + b[b.index(':'):] + '/' + path,
              b[:-1] + '/' + path, '/' + path, path, b + 'x', 'https://evil.example/?' + b, ' ' + url,
              b + '/../' + path, b + '/a/../../' + path, b + '//etc/' + path, b + '/..', b + '///' + path]:
        c.refused(lambda: sc.filename_from_webname(f), 'foreign URL mapped to a file', '%s (base %s)' % (f, base))
    c.ev('URLs mapped')
    c.seen('path', base, name_ == path, tail)
    # and the file is written where it belongs
    op = OP(c.net, 'https://opp%d.example.com' % i, 0)
    cnf = W.static_conf(op, response_type='code')
    h = W.handler({op.issuer: cnf}, base=base)
    inner = os.path.join(c.dir, 'in')
    os.makedirs(os.path.join(inner, 'sub'))
    os.chdir(inner)
    W.begin(c, h, op)
    ctx = W.context(h, op)
    good = 'sub/r%d.jwt' % rng.randint(0, 9)
    bad = rng.choice([b + '/../escaped', b + '.evil.example/x', b + '/' + c.dir + '/escaped', b + '/sub/../../escaped'])
    for u, ok in ((b + '/' + good, True), (bad, False)):
        ctx.registration_response = {'request_uris': [u]}
        srv = h.issuer2rp[op.issuer].client_get('service', 'authorization')
        if ok:
            c.equal(srv.store_request_on_file('content'), u, 'URL of the stored request')
            with open(os.path.join(inner, good)) as f:
                c.equal(f.read(), 'content', 'stored request')
        else:
            c.refused(lambda: srv.store_request_on_file('content'), 'request stored under a foreign URL', u)
    found = sorted(os.path.relpath(os.path.join(a, x), c.dir) for a, _, fs in os.walk(c.dir) for x in fs)
    c.equal(found, ['in/' + good], 'files written')
    c.ev('files checked')


HEADERS = {'application/json': 'json', 'application/jrd+json': 'json', 'application/jwt': 'jwt', FORM: 'urlencoded', 'text/plain': 'txt',
           'text/html': 'txt', 'image/png': 'other', 'undefined': 'other', '': 'other'}
ACCEPT = {'': {}, 'json': {'json': 'json', 'jwt': 'jwt'}, 'jwt': {'jwt': 'jwt'}, 'txt': {'txt': 'txt'}}


class Reply:
    def __init__(self, ctype):
        self.text = ''
        self.headers = CaseInsensitiveDict({} if ctype is None else {'Content-Type': ctype})


def f_header(c, rng, i):
    """What a body is expected to be, and what its header says."""
    for _ in range(12):
        ct = rng.choice([None] + sorted(HEADERS))
        exp = rng.choice(['', 'json', 'jwt', 'urlencoded', 'txt', 'xml'])
        if ct is None:
            want = exp or 'txt'
            spelled = None
        else:
            is_ = HEADERS[ct]
            if exp == '':
                want = 'txt' if is_ == 'other' else is_
            elif exp == 'xml':
                want = None
            elif exp == 'urlencoded':
                want = exp if is_ == exp or ct == 'text/plain' else None
            else:
                want = ACCEPT[exp].get(is_)
            spelled = ''.join(rng.choice([x, x.upper()]) for x in ct) if rng.random() < .4 else ct
            spelled += rng.choice(['', '', ';charset=utf-8', '; charset=UTF-8', ' ;charset="utf-8"'])
        f = rng.choice([util.verify_header, util.get_value_type])
        if f is util.get_value_type and not exp:
            want = 'urlencoded'
        if want is None:
            c.refused(lambda: f(Reply(spelled), exp), 'a body of another type than expected accepted', '%r %r' % (spelled, exp))
        else:
            c.equal(f(Reply(spelled), exp), want, 'body type', '%r %r' % (spelled, exp))
        c.ev('body types judged')
        c.seen('header', ct, exp, spelled == ct)


def run(r):
    r.rule = ('Parameter names and values over delimiters, controls and non-ASCII text; endpoints with paths, queries '
              'and fragments; every method and body type; every content type spelling.')
    r.cases('service', 500, f_service, thorough=40000, share=.3)
    r.cases('functions', 300, f_functions, thorough=30000, share=.25)
    r.cases('services', 250, f_services, thorough=8000, share=.4)
    r.cases('response', 300, f_response, thorough=20000, share=.4)
    r.cases('flow', 60, f_flow, thorough=2000, share=.4)
    r.cases('urlinfo', 100, f_urlinfo, thorough=4000, share=.5)
    r.cases('header', 40, f_header, thorough=2000)
    r.cases('path', 60, f_path, thorough=2000)
