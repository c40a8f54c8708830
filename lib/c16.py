"""C16: RP-initiated logout names the right session and returns to the right place."""
import copy
import os
from urllib.parse import parse_qsl, urlsplit

from oidcrp.exception import OidcServiceError

import jose
import op as opmod
import world
from core import Violation, short
from net import jresp
from vclock import CLOCK

RULE = ('A case is a history of interleaved sessions at several issuers: logins, refreshes that may bring a new ID Token, repeated '
        'logouts and closes with and without a return address, clearing. The oracle reads each logout request as a strict provider '
        'would and compares the hint, byte for byte, with the ID Tokens that it issued for that session. Non-trivial: a logout '
        'request that was judged; distinct by (response type, source of the hint, source of the return address, set-up).')
ASSUMPTIONS = []

ISS = ['https://op.example.com', 'https://login.example.net/x/', 'https://third.example.org:8443']


def read(c, o, url):
    ep = o.md['end_session_endpoint']
    e, u = urlsplit(ep), urlsplit(url)
    c.equal((u.scheme, u.netloc, u.path), (e.scheme, e.netloc, e.path), 'logout request to another place', url)
    q = parse_qsl(u.query, keep_blank_values=True)
    for pair in parse_qsl(e.query, keep_blank_values=True):
        c.check(pair in q, 'query part of the end session endpoint lost', url)
        q.remove(pair)
    c.check(len(dict(q)) == len(q), 'repeated parameter in a logout request', url)
    return dict(q)


def latest(s):
    """The ID Token that the session received most recently: (token, where)."""
    return s.hint[-1] if s.hint else (None, 'none')


def setup(c, rng, n):
    os.chdir(c.dir)
    res = []
    confs = {}
    for k, iss in enumerate(rng.sample(ISS, n)):
        o = opmod.OP(c.net, iss, k, tag='op%d' % k, md={'frontchannel_logout_supported': True, 'backchannel_logout_supported': True})
        if rng.random() < .3:
            o.md['end_session_endpoint'] += rng.choice(['?tenant=a', '?x=1&y=%20z'])
        o.rp_jwks = world.rp_public_jwks()
        ret = rng.choice(['none', 'single', 'list', 'usable', 'single+usable'])
        kind = rng.choice(['static', 'static+discovery', 'dynamic']) if 'usable' not in ret else 'dynamic'
        rt = rng.choice(['code', 'code', 'id_token', 'code id_token', 'id_token token', 'code id_token token', 'code token'])
        prefs = {rng.choice(['backchannel_logout_usable', 'frontchannel_logout_usable']): True} if 'usable' in ret else {}
        cnf, desc = world.gen_conf(rng, o, kind=kind, rt=rt, auth=rng.choice(world.AUTHS[:2]), prefs=prefs)
        own = None
        if 'single' in ret:
            own = cnf['post_logout_redirect_uri'] = world.BASE + '/bye/%s?x=%d&y=z' % (o.tag, k)
        elif ret == 'list':
            own = cnf['post_logout_redirect_uris'] = [world.BASE + '/bye/%s/%d' % (o.tag, j) for j in range(2)]
        key = rng.choice([iss, 'name-%d' % k])
        confs[key] = cnf
        res.append(dict(op=o, key=key, ret=ret, own=own, desc=desc, rt=rt))
    return res, world.handler(confs)


def history(c, rng, i):
    ws, h = setup(c, rng, rng.randint(1, 3))
    sessions, used, bound = [], set(), {}
    for w in ws:
        w['op'].idt_on_refresh = rng.random() < .6
        w['op'].sub_of = (lambda g: 'same-user') if rng.random() < .4 else w['op'].sub_of

    def start():
        w = rng.choice(ws)
        s = world.begin(c, h, w['op'], w['key'])
        s.w, s.hint, s.logouts = w, [], []
        world.answer(c, s)
        fin = {}
        if {'code', 'token'} <= set(w['rt'].split()) and rng.random() < .7:
            fin = {'behaviour_args': {'collect_tokens': True}}
        world.finalize(c, h, s, **fin)
        if 'id_token' in s.resp:
            s.hint.append((s.resp['id_token'], 'auth'))
        tr = [r for r in c.net.log if r.endpoint == 'token_endpoint' and r.info.get('grant') is s.grant]
        if tr and s.grant['idts']:
            last = s.grant['last'].get('id_token')
            if last:
                s.hint.append((last, 'token'))
        sessions.append(s)

    def refresh():
        cand = [s for s in sessions if s.grant['rts']]
        if not cand:
            return
        s = rng.choice(cand)
        CLOCK.advance(rng.randint(0, 100))
        h.refresh_access_token(s.state)
        t = s.grant['last'].get('id_token')
        if t:
            s.hint.append((t, 'refresh'))

    def logout():
        s = rng.choice(sessions)
        w, o = s.w, s.op
        own = rng.choice(['', '', world.BASE + '/after?' + 'q=' + world.rndtext(rng, 5, 'abc%+&=# /?'), 'https://other.example.org/x'])
        before = world.record(h, s.state)
        n0 = len(c.net.log)
        how = rng.choice(['logout', 'close', 'close-iss', 'client'])
        kw = {'post_logout_redirect_uri': own} if own else {}
        if how == 'logout':
            r = h.logout(s.state, **kw)
        elif how == 'close':
            r = h.close(s.state, **kw)
        elif how == 'client':
            r = h.logout(s.state, client=h.issuer2rp[o.issuer], **kw)
        else:
            r = h.close(s.state, issuer=o.issuer, **kw)
        c.equal(len(c.net.log), n0, 'logout sent a request by itself')
        q = read(c, o, r['url'])
        tok, src = latest(s)
        c.equal(q.pop('id_token_hint', None), tok, 'hint of a logout request', src)
        st = q.pop('state', '')
        c.check(len(st) >= 20 and st not in used and st != s.state, 'state of a logout request', st)
        used.add(st)
        ret = q.pop('post_logout_redirect_uri', None)
        ctx = world.context(h, o)
        registered = None
        if w['desc'][0] == 'dynamic':
            registered = [x.info['req'] for x in c.net.log if x.op is o and x.endpoint == 'registration_endpoint'][-1].get(
                'post_logout_redirect_uris')
        if own:
            c.equal(ret, own, 'return address given by the caller')
        elif w['ret'] == 'none':
            c.equal(ret, None, 'return address that nobody asked for')
        elif w['ret'] == 'list':
            if ret is None or ret not in w['own']:
                c.finding('configured-post-logout-redirect-uris-ignored', (ret, w['own']))
        elif w['ret'] == 'single':
            c.equal(ret, w['own'], 'configured return address')
        else:
            ok = list(registered or []) + ([w['own']] if w['own'] else [])
            c.check(ret in ok, 'return address neither configured nor registered', (ret, ok))
        c.equal(q, {}, 'other parameters in a logout request')
        c.equal(world.record(h, s.state), before, 'logout changed the session record')
        bound[st] = s
        c.ev('logout requests judged')
        c.seen('logout', w['rt'], src, w['ret'], bool(own), how, w['desc'][0])
        lookups()

    def lookups():
        for st, s in bound.items():
            c.equal(world.context(h, s.op).state.get_state_by_logout_state(st), s.state, 'session for a logout state')
            for w in ws:
                if w['op'] is not s.op and w['op'].issuer in h.issuer2rp:
                    try:
                        x = world.context(h, w['op']).state.get_state_by_logout_state(st)
                    except KeyError:
                        x = None
                    c.equal(x, None, 'logout state known to the client of another issuer')
                c.ev('logout states looked up')

    def clear():
        if len(sessions) < 2:
            return
        s = sessions.pop(rng.randrange(len(sessions)))
        h.clear_session(s.state)
        for st in [x for x, y in bound.items() if y is s]:
            del bound[st]
            c.refused(lambda: world.context(h, s.op).state.get_state_by_logout_state(st), 'logout state of a cleared session', allow=KeyError)
        c.refused(lambda: h.logout(s.state), 'logout of a cleared session')
        lookups()

    for _ in range(rng.randint(1, 3)):
        start()
    for _ in range(rng.randint(6, 14)):
        rng.choice([start, refresh, refresh, logout, logout, logout, logout, clear])()
    c.refused(lambda: h.logout('unknown-state'), 'logout of an unknown session')
    # a session of somebody else
    s = rng.choice(sessions)
    c.refused(lambda: h.close(s.state, issuer='https://unknown.example.org'), 'session closed at an unknown issuer')
    for w in ws:
        if w['op'] is not s.op and w['op'].issuer in h.issuer2rp:
            for fn in (lambda: h.close(s.state, issuer=w['op'].issuer), lambda: h.logout(s.state, h.issuer2rp[w['op'].issuer])):
                c.refused(fn, 'session closed at another issuer', w['op'].issuer)
            c.ev('closing at another issuer')
    lookups()


def cannot(c, rng, i):
    """No end session service: the documented error, and the session stays."""
    os.chdir(c.dir)
    o = opmod.OP(c.net, rng.choice(ISS), 0, tag='op0')
    o.rp_jwks = world.rp_public_jwks()
    kind = rng.choice(['static', 'static+discovery', 'dynamic'])
    cnf, desc = world.gen_conf(rng, o, kind=kind, rt=rng.choice(['code', 'id_token']), svc=world.services('end_session'))
    other = opmod.OP(c.net, 'https://second.example.org', 1, tag='op1')
    confs = {o.issuer: cnf, other.issuer: world.static_conf(other)}
    h = world.handler(confs)
    s = world.login(c, h, o)
    t = world.login(c, h, other)
    before = world.record(h, s.state)
    fn = rng.choice([lambda: h.logout(s.state), lambda: h.close(s.state), lambda: h.close(s.state, o.issuer),
                     lambda: h.logout(s.state, post_logout_redirect_uri=world.BASE)])
    c.refused(fn, 'logout without a service for it', allow=OidcServiceError)
    c.equal(world.record(h, s.state), before, 'session after the failed logout')
    q = read(c, other, h.logout(t.state)['url'])
    c.equal(q['id_token_hint'], t.grant['idts'][-1], 'hint of the other session')
    c.seen('cannot', desc)


def run(r):
    r.cases('history', 220, history, thorough=10000)
    r.cases('cannot', 30, cannot, thorough=600)
