"""C15: WebFinger asks the right host and follows only the right link."""
import json
import os
import re
from urllib.parse import parse_qsl, urlsplit

import op as opmod
import world
from core import Violation, short
from net import jresp

RULE = ('A case is a user identifier (generated from the grammar of OpenID Connect Discovery, or malformed) that a session is started '
        'with, or a deviating WebFinger answer. An independent normaliser says which host must be asked with which resource, or that '
        'the identifier must be refused; the HTTP monitor sees what was asked and where the client went next. Non-trivial: a request '
        'compared, or an answer whose fate was judged; distinct by (shape of the identifier, deviation).')
ASSUMPTIONS = ['identifiers with a scheme other than http, https and acct are not judged, except that they ask no other host']

REL = 'http://openid.net/specs/connect/1.0/issuer'


def norm(s):
    """(host[:port], resource) as OpenID Connect Discovery 2.1 prescribes, or None."""
    if not s.strip() or s[0] in '=@!':
        return None
    body = s.split('#', 1)[0]
    m = re.match(r'(?i)(https?)://', body)
    if m:
        auth = re.split(r'[/?]', body[m.end():], maxsplit=1)[0]
        host = auth.rpartition('@')[2]
        return (host, body) if host else None
    if re.match(r'(?i)https?:', body):
        return None
    if body.lower().startswith('acct:'):
        rest = re.split(r'[/?]', body[5:], maxsplit=1)[0]
        u, at, host = rest.rpartition('@')
        return (host, body) if at and host else None
    if body.startswith('//'):
        return None
    auth = re.split(r'[/?]', body, maxsplit=1)[0]
    u, at, host = auth.rpartition('@')
    if not host:
        return None
    if at and auth == body and '#' not in s and ':' not in host and ':' not in u:
        return host, 'acct:' + body
    return host, 'https://' + body


USER = "abcXYZ019-._~!$'*+,="
SEG = 'abcXYZ019-._~!$*+,=;'


def gen_id(rng, host):
    """An identifier for a host, and its shape."""
    scheme = rng.choice(['', '', 'acct:', 'https://', 'http://', 'HTTPS://'])
    user = rng.choice(['', world.rndtext(rng, rng.randint(1, 8), USER), 'joe%40other.org', 'j\u00f6e'])
    if scheme == 'acct:' and not user:
        user = 'joe'
    path = rng.choice(['', '', '', '/', '/' + world.rndtext(rng, 5, SEG), '/a/b/' + world.rndtext(rng, 3, SEG), '/x@other.org', '/a%20b'])
    query = rng.choice(['', '', '', '?q=' + world.rndtext(rng, 4, SEG), '?a=1&b=2', '?u=joe@other.org', '?u=https://other.org/'])
    frag = rng.choice(['', '', '', '#f', '#/x?y=@other.org'])
    if user and user[0] in '=@!':
        user = 'a' + user
    u = user + '@' if user else ''
    shape = (scheme, bool(user), bool(path), bool(query), bool(frag), ':' in host)
    return scheme + u + host + path + query + frag, shape


def gen_host(rng):
    h = rng.choice(['example.com', 'op.example.org', 'localhost', '192.0.2.7', 'xn--bcher-kva.example', 'a-b.c-d.example.net', 'EXAMPLE.com'])
    return h + rng.choice(['', '', ':8080', ':443', ':65535'])


def world_for(c, rng, host, prefs=None, conf=None, issuer=None, rel=None):
    os.chdir(c.dir)
    o = opmod.OP(c.net, issuer or 'https://issuer.example.net' + rng.choice(['', '/', '/t', '/a/b/']), 0, tag='op0')
    o.rp_jwks = world.rp_public_jwks()
    svc = world.services()
    if conf:
        svc['web_finger']['kwargs'] = {'conf': conf}
    if rel:
        svc['web_finger'].setdefault('kwargs', {})['rel'] = rel
    h = world.handler({'': world.dynamic_conf(None, [rng.choice(['code', 'id_token', 'code id_token'])], svc=svc)})
    return o, h


def wf(c):
    return [r for r in c.net.log if r.path == '/.well-known/webfinger']


def ask(c, rng, i):
    host = gen_host(rng)
    ident, shape = gen_id(rng, host)
    rel = rng.choice([None, None, None, 'https://rel.example.org/issuer', REL + '/2', 'x y'])
    o, h = world_for(c, rng, host, rel=rel)
    want = norm(ident)
    c.check(want and want[0].lower() == host.lower(), 'oracle', (ident, want))
    others = [{'rel': REL, 'href': 'https://another.example.net'}] if rel else []
    c.net.attach('https://' + host.lower(), lambda rec: jresp({'subject': ident, 'links': others + [{'rel': rel or REL, 'href': o.issuer}]},
                                                             ctype=rng.choice(['application/jrd+json', 'application/json'])))
    r = h.begin(user_id=ident)
    q = wf(c)
    c.equal(len(q), 1, 'number of WebFinger requests', ident)
    q = q[0]
    c.equal(q.seq, 0, 'something happened before the WebFinger request', ident)
    c.equal((q.method, q.scheme, q.netloc.lower(), q.path, q.body), ('GET', 'https', host.lower(), '/.well-known/webfinger', b''),
            'WebFinger request', ident)
    par = dict(q.query)
    c.equal(len(q.query), len(par), 'repeated parameters')
    c.equal(sorted(par), ['rel', 'resource'], 'parameters of a WebFinger request')
    c.equal(par['rel'], rel or REL, 'relation asked for')
    got, exp = par['resource'], want[1]
    sch = exp.split(':')[0]
    if re.match(r'(?i)https?$', sch):
        got, exp = [x.split(':', 1)[0].lower() + ':' + x.split(':', 1)[1] for x in (got, exp)]
    if got != exp and got == 'acct:' + ident and '@' not in ident:
        c.finding('bare-host-is-acct', (ident, par['resource']))
    else:
        c.equal(got, exp, 'resource asked for', ident)
    c.ev('WebFinger requests compared')
    c.seen('ask', shape, rel)
    c.check(r['url'].startswith(o.md['authorization_endpoint']), 'session started with somebody else', r['url'])
    s = world.Sess(o, o.issuer, r['state'], r['url'])
    world.answer(c, s)
    world.finalize(c, h, s)
    world.check_result(c, s)
    # a second user of the same issuer shares the client
    r2 = h.begin(user_id=ident)
    c.equal(list(h.issuer2rp), [o.issuer], 'clients')
    c.equal(world.record(h, s.state)['iss'], o.issuer, 'first session after the second')


BADID = ['', ' ', '=name', '=example*x', '@company', '!123', 'acct:', 'acct:joe', 'acct:joe@', 'https://', 'https:///path', 'http:', 'https:example.com',
         '//example.com/x', 'joe@', 'joe@/x', '?q', '#f', '/path', 'acct:joe@?x=@example.com', 'acct:joe@/@example.com', 'http://?x',
         'https://#@example.com', 'https://joe@/x', 'acct:joe%40example.com', '=joe@example.com', '@joe@example.com', '!joe@example.com',
         'https://example.com:port/', 'https://exa mple.com', 'joe@exa mple.com', 'https://[::1', 'acct:joe@#example.com']


def refuse(c, rng, i):
    ident = BADID[i % len(BADID)]
    o, h = world_for(c, rng, 'example.com')
    c.net.attach('https://example.com', lambda rec: jresp({'subject': ident, 'links': [{'rel': REL, 'href': o.issuer}]},
                                                         ctype='application/jrd+json'))
    c.refused(lambda: h.begin(user_id=ident), 'identifier that can not be normalised accepted', repr(ident))
    c.equal(list(h.issuer2rp), [], 'client')
    c.check(not [r for r in c.net.log if r.status not in ('no such host', None)], 'request for an identifier that can not be normalised',
            lambda: [r.url for r in c.net.log])
    c.seen('refuse', ident)


def multi(c, rng, i):
    """More than one @: the host is what follows the last one, or the identifier is refused."""
    ident = rng.choice(['', 'acct:', 'https://']) + 'joe@evil.example.net@good.example.com' + rng.choice(['', '/x', '?q=1', '#f', ':8080'])
    o, h = world_for(c, rng, '')
    good = 'https://good.example.com' + (':8080' if ident.endswith(':8080') else '')
    c.net.attach(good, lambda rec: jresp({'subject': ident, 'links': [{'rel': REL, 'href': o.issuer}]}, ctype='application/jrd+json'))
    evil = []
    c.net.attach('https://evil.example.net', lambda rec: evil.append(rec) or jresp({}, 404))
    try:
        h.begin(user_id=ident)
    except Exception:
        pass
    c.check(not [r for r in c.net.log if 'evil' in r.netloc], 'another host asked', lambda: [r.url for r in c.net.log])
    c.seen('multi', ident[:6], ident[-2:])


LINKS = ['first', 'several', 'none', 'empty', 'similar', 'case', 'http', 'HTTP', 'space-http', 'http-allowed', 'http-allowed-elsewhere', 'nolinks', 'notlist',
         'nohref', 'dict', 'http-second', 'relative', 'empty-href', 'norel', '404', '500', 'error', 'other-http', 'template', 'text']


def links(c, rng, i):
    how = LINKS[i % len(LINKS)]
    conf = {'http-allowed': {'allow': {'http_links': True}},
            'http-allowed-elsewhere': rng.choice([{'allow': {'issuer_mismatch': True}}, {'allow': {'http_links': False}}, {'allow': {}}])}.get(how)
    # also one that is near is not to be talked to in the clear
    o, h = world_for(c, rng, '', conf=conf, issuer=rng.choice([None, None, 'https://localhost:8443/t', 'https://localhost', 'https://127.0.0.1',
                                                               'https://op.localhost', 'https://192.168.0.9:8080', 'https://wf.example.org/op']))
    evil = opmod.OP(c.net, 'https://evil.example.net', 1, tag='evil')
    plain = 'http' + o.issuer[5:]
    noise = [{'rel': 'http://webfinger.net/rel/avatar', 'type': 'image/jpeg', 'href': evil.issuer + '/a.jpg'},
             {'rel': 'http://openid.net/specs/connect/1.0/issuerx', 'href': evil.issuer},
             {'rel': 'http://webfinger.net/rel/profile-page', 'href': evil.issuer},
             {'rel': 'self', 'href': evil.issuer}]
    rng.shuffle(noise)
    pre, post = noise[:rng.randint(0, 3)], noise[3:]
    L = {'rel': REL, 'href': o.issuer}
    good = how in ('first', 'several', 'other-http', 'http-second')
    doc = {'subject': 'acct:joe@wf.example.com', 'links': pre + [L] + post}
    if how == 'several' or how == 'http-second':
        doc['links'] = pre + [L, {'rel': REL, 'href': evil.issuer if how == 'several' else 'http://evil.example.net'}] + post
    elif how in ('none', 'empty', 'similar', 'case', 'norel'):
        bad = {'none': None, 'empty': {'rel': '', 'href': evil.issuer}, 'similar': {'rel': REL + rng.choice(['/', 's', ' ', '#']), 'href': evil.issuer},
               'case': {'rel': REL.upper(), 'href': evil.issuer}, 'norel': {'href': evil.issuer}}[how]
        doc['links'] = pre + ([bad] if bad else []) + post
    elif how in ('http', 'HTTP', 'space-http', 'http-allowed', 'http-allowed-elsewhere'):
        L['href'] = {'HTTP': rng.choice(['HTTP', 'Http', 'hTTP']) + plain[4:], 'space-http': rng.choice(' \t\n') + plain}.get(how, plain)
    elif how == 'nolinks':
        del doc['links']
    elif how == 'notlist':
        doc['links'] = rng.choice(['x', 7, {}, o.issuer])
    elif how == 'dict':
        doc['links'] = {REL: o.issuer}
    elif how == 'nohref':
        del L['href']
    elif how == 'template':
        L['template'] = L.pop('href')
    elif how == 'relative':
        L['href'] = '/issuer'
    elif how == 'empty-href':
        L['href'] = ''
    elif how == 'other-http':
        doc['links'].insert(0, {'rel': 'http://webfinger.net/rel/avatar', 'href': 'http://evil.example.net/a.jpg'})
    status = {'404': 404, '500': 500}.get(how, 200)
    if how == 'error':
        doc = {'error': 'not_found'}
    ctype = 'application/jrd+json'
    body = json.dumps(doc)
    if how == 'text':
        ctype, body = 'text/plain', 'issuer: ' + o.issuer
    c.net.attach('https://wf.example.com', lambda rec: (status, {'Content-Type': ctype}, body))
    for u in (plain, o.issuer):
        p = urlsplit(u)
        if (p.scheme, p.netloc) not in c.net.hosts:
            c.net.attach(u, lambda rec: jresp(o.md))
    c.ev('deviating answers sent' if not good else 'answers sent')
    if good:
        r = h.begin(user_id='joe@wf.example.com')
        c.check(r['url'].startswith(o.md['authorization_endpoint']), 'wrong link followed', (how, r['url']))
        c.equal(list(h.issuer2rp), [o.issuer], 'issuer from WebFinger')
    elif how == 'http-allowed':
        try:
            h.begin(user_id='joe@wf.example.com')
        except Exception:
            pass
        c.check(any(r.scheme == 'http' and r.url.endswith('openid-configuration') for r in c.net.log), 'explicitly allowed http link not followed')
    else:
        c.refused(lambda: h.begin(user_id='joe@wf.example.com'), 'deviating WebFinger answer accepted', how)
        c.equal(list(h.issuer2rp), [], 'client after a refused WebFinger answer', how)
    if how != 'http-allowed':
        c.check(not any(r.scheme == 'http' for r in c.net.log), 'plain http used', lambda: [r.url for r in c.net.log])
    c.check(not any(r.netloc.startswith('evil') for r in c.net.log), 'a link with another relation was followed', lambda: [r.url for r in c.net.log])
    c.seen('links', how, len(pre), len(post), bool(conf))
    # and a genuine answer works afterwards
    if not good:
        c.net.attach('https://wf.example.com', lambda rec: jresp({'subject': 'x', 'links': [{'rel': REL, 'href': o.issuer}]},
                                                                 ctype='application/jrd+json'))
        r = h.begin(user_id='joe@wf.example.com')
        c.check(r['url'].startswith(o.md['authorization_endpoint']), 'genuine answer not followed', r['url'])


def jrd(rng, subject, href):
    """A JSON resource descriptor as RFC 7033 allows it."""
    link = {'rel': REL, 'href': href}
    d = {'subject': subject, 'links': [link]}
    for how in rng.sample(['nosubject', 'aliases', 'properties', 'null property', 'expires', 'titles', 'link properties', 'null link property', 'type', 'bare link',
                           'template', 'members', 'other subject', 'unknown'], rng.choice([0, 1, 1, 2, 3])):
        if how == 'nosubject':
            d.pop('subject')
        elif how == 'other subject' and 'subject' in d:
            d['subject'] = 'https://canonical.example.net/' + subject[-3:]
        elif how == 'aliases':
            d['aliases'] = rng.choice([[], ['https://www.example.com/~bob/', 'acct:b@example.com']])
        elif how == 'properties':
            d['properties'] = {'http://example.com/ns/role': 'employee'}
        elif how == 'null property':
            d['properties'] = {'http://example.com/ns/role': None, 'http://example.com/ns/n': 'x'}
        elif how == 'expires':
            d['expires'] = '2030-01-30T09:30:00Z'
        elif how == 'titles':
            link['titles'] = rng.choice([{'en-us': 'The issuer', 'und': 'x'}, {}])
        elif how == 'link properties':
            link['properties'] = {'http://example.com/p': 'v'}
        elif how == 'null link property':
            link['properties'] = {'http://example.com/p': None}
        elif how == 'type':
            link['type'] = 'application/json'
        elif how == 'bare link':
            d['links'].insert(rng.randint(0, 1), {'rel': 'http://example.com/rel/nothing'})
        elif how == 'template':
            d['links'].insert(0, {'rel': 'lrdd', 'template': 'https://evil.example.net/?q={uri}'})
        elif how == 'members':
            link['lang'] = 'en'
            d['x-more'] = {'a': [1, None, {'b': 2}]}
        else:
            d['links'].append({'rel': 'me', 'href': 'https://evil.example.net/'})
    return d


def several(c, rng, i):
    """Many users at many issuers: each goes to the issuer that its own host names."""
    os.chdir(c.dir)
    ops = []
    for k in range(3):
        o = opmod.OP(c.net, 'https://iss%d.example.net/%s' % (k, rng.choice(['', 't'])), k, tag='op%d' % k)
        o.rp_jwks = world.rp_public_jwks()
        ops.append(o)
    hosts = {'h%d.example.com' % k: rng.choice(ops) for k in range(5)}
    for name, o in hosts.items():
        c.net.attach('https://' + name, lambda rec, o=o: jresp(jrd(rng, dict(rec.query)['resource'], o.issuer), ctype=rng.choice(
            ['application/jrd+json', 'application/jrd+json', 'application/json', 'application/jrd+json; charset=utf-8', 'Application/JRD+JSON'])))
    confs = {'': world.dynamic_conf(None, [rng.choice(['code', 'id_token'])])}
    own = {}
    for o in ops:
        # some of the issuers have a configuration of their own
        own[o.issuer] = rng.choice([None, None, 'static', 'static+discovery'])
        if own[o.issuer]:
            confs[o.issuer], _ = world.gen_conf(rng, o, kind=own[o.issuer], rt='code')
    h = world.handler(confs)
    live = []
    for _ in range(rng.randint(4, 9)):
        name = rng.choice(sorted(hosts))
        o = hosts[name]
        ident = rng.choice(['joe@%s', 'acct:ann@%s', 'https://%s/u', '%s/bob', '%s:443/x'][:4]) % name
        n0 = len(c.net.log)
        if rng.random() < .7:
            r = h.begin(user_id=ident)
            q = c.net.log[n0]
            c.equal((q.netloc, q.path), (name, '/.well-known/webfinger'), 'host asked', ident)
        else:
            r = h.begin(o.issuer)
        c.check(r['url'].startswith(o.md['authorization_endpoint']), 'user sent to the wrong provider', (ident, r['url']))
        live.append(world.Sess(o, o.issuer, r['state'], r['url']))
        if rng.random() < .6:
            s = live.pop(rng.randrange(len(live)))
            world.answer(c, s)
            world.finalize(c, h, s)
            world.check_result(c, s)
    for s in live:
        world.answer(c, s)
        world.finalize(c, h, s)
        world.check_result(c, s)
    c.check(set(h.issuer2rp) <= {o.issuer for o in ops}, 'unknown issuer')
    for o in ops:
        n = sum(1 for r in c.net.log if r.op is o and r.endpoint == 'registration_endpoint')
        c.check(n <= 1, 'registered twice', n)
        c.check(not (n and own[o.issuer]), 'registered in spite of the configuration for this issuer', own[o.issuer])
        if own[o.issuer] and o.issuer in h.issuer2rp:
            c.equal(world.context(h, o).client_id, confs[o.issuer]['client_id'], 'client of an issuer with its own configuration')
    c.seen('several', len(set(o.tag for o in hosts.values())), len(live), tuple(map(str, own.values())))


def run(r):
    r.cases('ask', 300, ask, thorough=15000)
    r.cases('refuse', len(BADID) * 2, refuse, thorough=len(BADID) * 6)
    r.cases('multi', 16, multi, thorough=60)
    r.cases('links', 100, links, thorough=3000)
    r.cases('several', 60, several, thorough=3000)
