"""C18: the session store is an exact map and forgetting a session forgets all of it."""
import copy
import json
import os
import types

import jose
import op as opmod
import world
from core import Violation, short
from vclock import CLOCK

from oidcmsg.message import Message
from oidcmsg.oauth2 import AccessTokenResponse, AuthorizationRequest as A2
from oidcmsg.oidc import AuthorizationRequest, AuthorizationResponse, OpenIDSchema
from oidcrp.state_interface import StateInterface

RULE = ('A case of family store is a random history of store operations on several stores, with values made of the text the '
        'others are made of (session keys, other identifiers, marks), compared step by step with a map model; stores are '
        'also exported and loaded half way. A case of family handler is a history of logins, refreshes, logout requests and '
        'clearing at several issuers; after each clearing everything reachable from the handler, and its exported form, is '
        'searched for what belonged to the session, and all that belongs to others is looked up. Families scale and crowd hold '
        'thousands of sessions in a store and hundreds of open logins at a handler, with big items and many identifiers for one session. Non-trivial: a comparison '
        'with the model; distinct by (operation, relation of the value to other values in the store).')
ASSUMPTIONS = ['identifiers are non-empty strings']

KINDS = {'nonce': ('store_nonce2state', 'get_state_by_nonce'), 'logout state': ('store_logout_state2state', 'get_state_by_logout_state'),
         'session id': ('store_sid2state', 'get_state_by_sid'), 'subject id': ('store_sub2state', 'get_state_by_sub')}
MARKS = ['__', '::', '..', '==', 'ref', '_', ':', '.', '=', '{}', '{0}', '%s', '']
TYPES = ['auth_request', 'auth_response', 'token_response', 'refresh_token_request', 'refresh_token_response', 'user_info', 'pkce', 'own']


class Model:
    def __init__(self):
        self.s, self.x, self.dead, self.ever = {}, {}, [], set()

    def words(self, rng):
        return ([k for k in self.s] + [v for _, v in self.x] + self.dead) or ['w']


def ident(rng, m):
    """A value, preferably one that is made of others."""
    r = rng.random()
    if r < .25:
        return rng.choice(['a', 'b', 'alice', 'x1', 'é', '\U0001f600'])
    if r < .4:
        return world.rndtext(rng)
    w = rng.choice(m.words(rng))
    k = rng.choice(MARKS)
    if r < .6:
        return w
    if r < .85:
        return k + w + k
    return rng.choice([k + w, w + k, w[:-1] or 'z', w + w, w.upper()])


def value(rng, d=0):
    r = rng.randrange(9 if d < 2 else 5)
    if r < 3:
        return world.rndtext(rng)
    if r == 3:
        return rng.choice(['{"a": 1}', '["x"]', 'null', '1', 'true', '"q"', '__x__', '\\', '\n', '{}'])
    if r == 4:
        return rng.choice([1, 0, -7, 2 ** 40, True, False])
    if r < 7:
        return [world.rndtext(rng) for _ in range(rng.randint(1, 3))]
    return {world.rndtext(rng, 3, 'abc_. '): value(rng, d + 1) for _ in range(rng.randint(1, 3))}


def message(rng):
    t = lambda: world.rndtext(rng)
    r = rng.randrange(6)
    if r == 0:
        return AuthorizationRequest(state=t(), nonce=t(), redirect_uri='https://rp.example.org/cb?' + t(), response_type=rng.choice(
            ['code', 'code id_token']), client_id=t(), scope=['openid', 'email'], extra=t())
    if r == 1:
        return AccessTokenResponse(access_token=t(), token_type='Bearer', expires_in=rng.randint(0, 9999), refresh_token=t(), x=t(),
                                   scope=['a', 'b'])
    if r == 2:
        return OpenIDSchema(sub=t(), name=t(), email_verified=rng.random() < .5, address={'locality': t()}, zz=value(rng))
    if r == 3:
        return A2(state=t(), client_id=t(), response_type='code')
    if r == 4:
        return AuthorizationResponse(state=t(), code=t(), session_state=t(), iss=t())
    return Message(**{k: value(rng) for k in rng.sample(['a', 'b', 'id_token', 'access_token', '__verified_id_token', 'key with space',
                                                          'code_verifier', 'iss', 'state', '__verified_a', '__verified_access_token'],
                                                         rng.randint(1, 7))})


def look(c, st, m, rng):
    """Everything, compared with the model."""
    probes = {v for _, v in m.x} | set(m.s) | set(m.dead[-4:])
    probes |= {rng.choice(MARKS) + p for p in list(probes)[:3]} | {k + p + k for p in list(probes)[:3] for k in MARKS[:5]}
    probes.discard('')
    for p in sorted(probes):
        for kind, (_, get) in KINDS.items():
            try:
                got = getattr(st, get)(p)
            except KeyError:
                got = None
            c.equal(got, m.x.get((kind, p)), 'session that an identifier leads to', (kind, p))
        if p in m.s:
            c.equal(st.get_iss(p), m.s[p]['iss'], 'issuer of a session')
            rec = st.get_state(p)
            c.equal(set(rec.keys()), set(m.s[p]), 'items of a session', p)
        else:
            c.refused(lambda: st.get_state(p), 'record of an unknown session', p, allow=KeyError)
            c.refused(lambda: st.get_iss(p), 'issuer of an unknown session', p, allow=KeyError)
            c.refused(lambda: st.get_item(Message, 'auth_request', p), 'item of an unknown session', p, allow=KeyError)
        c.ev('identifiers looked up in all kinds')


def store(c, rng, i):
    n = rng.randint(1, 2)
    sts = [(StateInterface(), Model()) for _ in range(n)]
    for step in range(rng.randint(15, 40)):
        st, m = rng.choice(sts)
        what = rng.choice(['create', 'create', 'item', 'item', 'get', 'bind', 'bind', 'bind', 'remove', 'dump', 'ext', 'mext', 'no', 'drop'])
        live = list(m.s)
        if what == 'create':
            iss = rng.choice(['https://op.example.com', 'https://a.example/' + world.rndtext(rng, 4)])
            if rng.random() < .5:
                key = ident(rng, m)
                if key in m.s:
                    continue
                try:
                    c.equal(st.create_state(iss, key), key, 'key of a new session')
                except ValueError:
                    marks = [k for k in MARKS[:5] if key.startswith(k) and key.endswith(k)]
                    c.check(marks, 'key refused', key)
                    c.seen('refused key', marks)
                    continue
            else:
                key = st.create_state(iss)
                c.check(len(key) >= 20 and key not in m.s, 'key of a new session', key)
            m.s[key] = {'iss': iss}
            if key in m.dead:
                m.dead.remove(key)
        elif what == 'item' and live:
            key, typ = rng.choice(live), rng.choice(TYPES)
            msg = message(rng)
            want = (type(msg), copy.deepcopy(msg.to_dict()))
            if rng.random() < .3:
                st.store_item(msg.to_json(), typ, key)
            else:
                st.store_item(msg, typ, key)
            m.s[key][typ] = want
            c.equal(msg.to_dict(), want[1], 'storing an item changed it')
        elif what == 'get' and live:
            key = rng.choice(live)
            for typ in TYPES:
                if typ in m.s[key]:
                    cls, want = m.s[key][typ]
                    got = st.get_item(cls, typ, key)
                    c.check(type(got) is cls, 'class of an item')
                    c.equal(got.to_dict(), want, 'item is not what was stored', typ)
                    got['changed'] = 'by the caller'
                    c.equal(st.get_item(cls, typ, key).to_dict(), want, 'item changed through what was returned', typ)
                    c.ev('items compared')
                else:
                    c.refused(lambda: st.get_item(Message, typ, key), 'item that was not stored', typ, allow=KeyError)
        elif what == 'bind' and live:
            kind = rng.choice(sorted(KINDS))
            v, key = ident(rng, m), rng.choice(live)
            if not v:
                continue
            rel = 'new' if v not in m.words(rng) else 'other kind' if (kind, v) not in m.x else 'rebound' if m.x[kind, v] != key else 'again'
            getattr(st, KINDS[kind][0])(v, key)
            m.x[kind, v] = key
            m.ever.add((v, key))
            c.seen('bind', kind, rel, [k for k in MARKS[:5] if v.startswith(k) and v.endswith(k)])
        elif what == 'remove' and live:
            key = rng.choice(live)
            nref = len([1 for v in m.x.values() if v == key])
            st.remove_state(key)
            gone = [v for (k, v), t in m.x.items() if t == key]
            del m.s[key]
            m.x = {k: v for k, v in m.x.items() if v != key}
            m.dead += [key] + gone
            txt = json.dumps(st.dump(), ensure_ascii=False)
            rest = set(m.s) | {v for v, k in m.ever if k in m.s}
            for w in [key] + gone:
                if len(w) >= 20 and not any(w[8:20] in r for r in rest):
                    c.check(w not in txt, 'something of a removed session is still in the store', w)
            c.refused(lambda: st.remove_state(key), 'removing a removed session', key, allow=KeyError)
            c.seen('remove', min(nref, 4), len(m.s) > 0)
        elif what == 'drop' and live:
            key, typ = rng.choice(live), rng.choice(TYPES)
            st.remove_item(typ, key)
            m.s[key].pop(typ, None)
        elif what == 'dump':
            d = st.dump()
            st2 = StateInterface().load(json.loads(json.dumps(d)))
            if st2 is None:
                st2 = StateInterface()
                st2.load(json.loads(json.dumps(d)))
            c.equal(st2.dump(), d, 'export of a loaded store')
            sts[[k for k, x in enumerate(sts) if x[0] is st][0]] = (st2, m)
            c.seen('dump', min(len(m.s), 3))
        elif what == 'ext' and live:
            key, typ = rng.choice(live), rng.choice(TYPES)
            orig = rng.random() < .5
            par = ['id_token', 'access_token', 'state', 'a']
            args = {'a': 'mine', 'z': 1}
            got = st.extend_request_args(dict(args), Message, typ, key, par, orig)
            want = merge(args, [m.s[key][typ][1]] if typ in m.s[key] else [], par, orig)
            c.equal(plain(got), want, 'arguments from an item')
        elif what == 'mext' and live:
            key = rng.choice(live)
            typs = rng.sample(TYPES[:6], 3)
            orig = rng.random() < .5
            par = ['id_token', 'access_token', 'state', 'scope', 'a']
            got = st.multiple_extend_request_args({'b': 'mine'}, key, par, typs, orig)
            want = merge({'b': 'mine'}, [m.s[key][t][1] for t in typs if t in m.s[key]], par, orig)
            c.equal(plain(got), want, 'arguments from several items')
            c.seen('arguments from several items', orig, len([1 for t in typs if t in m.s[key]]))
        elif what == 'no':
            p = ident(rng, m)
            if p and p not in m.s:
                c.refused(lambda: st.remove_state(p), 'removing an unknown session', p, allow=KeyError)
                c.refused(lambda: st.multiple_extend_request_args({}, p, ['a'], ['auth_request']), 'arguments from an unknown session', p,
                          allow=KeyError)
        if step % 3 == 0:
            for s2, m2 in sts:
                look(c, s2, m2, rng)
    for s2, m2 in sts:
        look(c, s2, m2, rng)


def scale(c, rng, i):
    """Many sessions, many identifiers for one session, big items: nothing is dropped, cut off or mixed up."""
    st = StateInterface()
    n = rng.choice([1500, 2500, 5000])
    big = rng.randrange(n)
    keys, want = [], {}
    for k in range(n):
        key = st.create_state('https://op%d.example.com' % (k % 7), 'k%d' % k if k % 3 else '')
        nonce, sub, sid = 'n%d' % k, 'sub-%d' % (k // 2), 'sid%d' % k
        st.store_item(AuthorizationRequest(state=key, nonce=nonce, response_type='code', client_id='c', scope=['openid'],
                                           redirect_uri='https://rp.example.org/cb'), 'auth_request', key)
        st.store_nonce2state(nonce, key)
        st.store_sub2state(sub, key)
        st.store_sid2state(sid, key)
        keys.append(key)
    text = 'é"\\ \U0001f600' * rng.choice([2000, 20000, 60000])
    st.store_item(OpenIDSchema(sub='s', note=text, many=['v%d' % x for x in range(5000)]), 'user_info', keys[big])
    los = ['lo-%d' % x for x in range(rng.choice([40, 400]))]
    for x in los:
        st.store_logout_state2state(x, keys[big])
    if rng.random() < .5:
        d = json.loads(json.dumps(st.dump()))
        st = StateInterface()
        st.load(d)
    dead = set(rng.sample([k for k in range(n) if k != big], 20))
    for k in dead:
        st.remove_state(keys[k])
    for k, key in enumerate(keys):
        last = k // 2 * 2 + 1
        last = last if last < n else k
        if k in dead:
            c.refused(lambda: st.get_state(key), 'record of a removed session', allow=KeyError)
            c.refused(lambda: st.get_state_by_sid('sid%d' % k), 'identifier of a removed session', allow=KeyError)
            c.refused(lambda: st.get_state_by_nonce('n%d' % k), 'identifier of a removed session', allow=KeyError)
        else:
            c.equal(st.get_iss(key), 'https://op%d.example.com' % (k % 7), 'issuer of a session among many', (k, n))
            c.equal(st.get_item(AuthorizationRequest, 'auth_request', key)['nonce'], 'n%d' % k, 'item of a session among many', (k, n))
            c.equal(st.get_state_by_nonce('n%d' % k), key, 'session that an identifier leads to, among many', (k, n))
            c.equal(st.get_state_by_sid('sid%d' % k), key, 'session that an identifier leads to, among many', (k, n))
            if k == last or last in dead:
                if last not in dead:
                    c.equal(st.get_state_by_sub('sub-%d' % (k // 2)), key, 'session that a subject leads to, among many', (k, n))
    for x in los:
        c.equal(st.get_state_by_logout_state(x), keys[big], 'one of many logout states', x)
    it = st.get_item(OpenIDSchema, 'user_info', keys[big])
    c.check(it['note'] == text and it['many'] == ['v%d' % x for x in range(5000)], 'a big item is not what was stored')
    st.remove_state(keys[big])
    for x in los:
        c.refused(lambda: st.get_state_by_logout_state(x), 'one of many logout states of a removed session', x, allow=KeyError)
    c.ev('sessions among many looked up', n)
    c.seen('scale', n, len(los), len(text))


def crowd(c, rng, i):
    """Many logins open at once at one handler, answered in another order."""
    o = opmod.OP(c.net, 'https://op.example.com', 0, tag='op0')
    o2 = opmod.OP(c.net, 'https://login.example.net', 1, tag='op1')
    confs = {}
    for x in (o, o2):
        confs[x.issuer], _ = world.gen_conf(rng, x, rt='code', add_ons=world.pkce(), auth='client_secret_basic')
    h = world.handler(confs)
    n = rng.choice([60, 130, 300])
    ss = []
    for k in range(n):
        x = rng.choice([o, o2])
        x.sub_of = lambda g: 'subject-of-' + g['state']
        s = world.begin(c, h, x)
        ss.append(s)
    order = list(range(n))
    if rng.random() < .5:
        rng.shuffle(order)
    for k in order:
        s = ss[k]
        world.answer(c, s)
        world.finalize(c, h, s)
        c.check('error' not in (s.result or {}), 'a login among many was refused', lambda: (k, n, s.result))
    for k, s in enumerate(ss):
        idt = h.get_session_information(s.state)
        c.equal(idt['iss'], s.op.issuer, 'issuer of a session among many', (k, n))
        at, _ = h.get_valid_access_token(s.state)
        c.equal(at, s.grant['ats'][-1], 'access token of a session among many', (k, n))
        st = world.context(h, s.op).state
        c.equal(st.get_state_by_sub('subject-of-' + s.state), s.state, 'session that a subject leads to, among many', (k, n))
    c.ev('logins among many looked up', n)
    c.seen('crowd', n)


def plain(d):
    return {k: v.to_dict() if hasattr(v, 'to_dict') else v for k, v in d.items()}


def arguments(c, rng, i):
    """What is taken out of the items of a session: the parameters asked for, of later items before those of earlier."""
    st = StateInterface()
    key = st.create_state('https://op.example.com')
    items = {}
    names = ['a', 'b', 'id_token', 'access_token', 'state']
    for typ in rng.sample(TYPES, rng.randint(1, 4)):
        it = Message(**{k: value(rng) for k in rng.sample(names + ['__verified_' + n for n in names], rng.randint(1, 8))})
        # what is there in the first item is not to be found in another session
        other = st.create_state('https://op.example.com')
        st.store_item(Message(**{n: 'of another' for n in names}), typ, other)
        st.store_item(it, typ, key)
        items[typ] = json.loads(it.to_json())
    for k in range(4):
        orig, par = rng.random() < .5, rng.sample(names, rng.randint(1, 4))
        typs = rng.sample(TYPES[:6], rng.randint(1, 5))
        args = {n: 'mine' for n in rng.sample(names + ['z'], rng.randint(0, 3))}
        got = st.multiple_extend_request_args(dict(args), key, par, typs, orig)
        c.equal(plain(got), merge(args, [items[t] for t in typs if t in items], par, orig), 'arguments from several items')
        typ = rng.choice(typs)
        got = st.extend_request_args(dict(args), Message, typ, key, par, orig)
        c.equal(plain(got), merge(args, [items[typ]] if typ in items else [], par, orig), 'arguments from an item')
        c.seen('arguments', orig, len(par), len([t for t in typs if t in items]))
        c.ev('arguments taken from items')


def merge(args, items, par, orig):
    res = dict(args)
    for it in items:
        for p in par:
            if not orig and '__verified_' + p in it:
                res[p] = it['__verified_' + p]
            elif p in it:
                res[p] = it[p]
    return res


# -- the handler ------------------------------------------------------------------

def strings(root, limit=400000):
    """All text reachable from an object through data (no code, no classes, no modules)."""
    seen, todo = set(), [(root, '')]
    skip = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.CodeType, int, float, bool, type(None))
    while todo and len(seen) < limit:
        o, path = todo.pop()
        if isinstance(o, (str, bytes)):
            yield o if isinstance(o, str) else o.decode('latin-1'), path
            continue
        if isinstance(o, skip) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            for k, v in list(o.items()):
                todo.append((k, path + '/key'))
                todo.append((v, '%s/%s' % (path, short(k, 30))))
        elif isinstance(o, (list, tuple, set, frozenset)):
            todo += [(v, path + '[]') for v in o]
        elif isinstance(o, types.MethodType):
            todo.append((o.__self__, path))
        else:
            d = getattr(o, '__dict__', None)
            if d:
                todo.append((dict(d), path + '<%s>' % type(o).__name__))
            for k in getattr(type(o), '__slots__', ()) or ():
                if isinstance(k, str) and hasattr(o, k):
                    todo.append((getattr(o, k), path + '.' + k))


def belongings(s):
    """What belongs to this session alone."""
    g = s.grant or {}
    res = {'state': s.state, 'nonce': (s.req or {}).get('nonce') or g.get('nonce'), 'code': g.get('code'), 'challenge': g.get('challenge')}
    for k in ('ats', 'rts', 'idts'):
        for n, v in enumerate(g.get(k, [])):
            res['%s%d' % (k, n)] = v
    for n, v in enumerate(s.lo):
        res['lo%d' % n] = v
    for n, v in enumerate(s.ver):
        res['verifier%d' % n] = v
    if s.u:
        res['sub'] = g.get('sub')
        res['email'] = 'only-%s@x.org' % s.u
        res['sid'] = g.get('sid') if s.op.sid else None
    return {k: v for k, v in res.items() if v and len(v) > 8}


def handler(c, rng, i):
    os.chdir(c.dir)
    ops, confs, keys = [], {}, {}
    for k, iss in enumerate(rng.sample(['https://op.example.com', 'https://login.example.net/x', 'https://third.example.org:8443'],
                                       rng.randint(1, 3))):
        o = opmod.OP(c.net, iss, k, tag='op%d' % k, md={'backchannel_logout_session_supported': True})
        o.rp_jwks = world.rp_public_jwks()
        o.sid = rng.random() < .7
        o.idt_on_refresh = rng.random() < .5
        ao = world.pkce() if rng.random() < .6 else {}
        if rng.random() < .3:
            ao.update(world.dpop())
            o.md['dpop_signing_alg_values_supported'] = ['ES256']
        keys[iss] = rng.choice([iss, 'name%d' % k])
        rt = rng.choice(world.RT_ALL)
        confs[keys[iss]], _ = world.gen_conf(rng, o, rt=rt, add_ons=ao if 'code' in rt else {}, auth=rng.choice(world.AUTHS[:2]))
        o.shared = rng.random() < .5
        ops.append(o)
    h = world.handler(confs)
    live, gone = [], []
    no = [0]

    def login(stage=None):
        o = rng.choice(ops)
        no[0] += 1
        u = '' if o.shared else 'user-%d-%s' % (no[0], o.tag)
        o.sub_of = lambda g: 'the-user' if o.shared else 'subject-' + u
        o.ui_claims = {'email': 'only-%s@x.org' % u} if u else {}
        s = world.begin(c, h, o, keys[o.issuer])
        s.u, s.lo, s.ver, s.stage = u, [], [], 'begun'
        s.req = o.resolve(o.read_authz(s.url))
        live.append(s)
        stage = stage or rng.choice(['begun', 'auth', 'done', 'done', 'done'])
        if stage == 'begun':
            return
        world.answer(c, s)
        if stage == 'auth':
            client = h.issuer2rp[o.issuer]
            h.finalize_auth(client, o.issuer, dict(s.resp))
            s.stage = 'auth'
            return
        n0 = len(c.net.log)
        world.finalize(c, h, s)
        for r in c.net.log[n0:]:
            if r.endpoint == 'token_endpoint':
                v = dict(r.form()).get('code_verifier')
                if v:
                    s.ver.append(v)
        s.stage = 'done'

    def refresh():
        for s in rng.sample(live, len(live)):
            if s.stage == 'done' and s.grant['rts']:
                h.refresh_access_token(s.state)
                return

    def logout():
        for s in rng.sample(live, len(live)):
            if s.stage == 'done' and s.grant['idts']:
                from urllib.parse import parse_qs, urlsplit
                s.lo.append(parse_qs(urlsplit(h.logout(s.state)['url']).query)['state'][0])
                return

    def bindings(s):
        """What the store must say about a session: identifiers that are its own."""
        st = world.context(h, s.op).state
        res = []
        if s.req.get('nonce'):
            res.append((st.get_state_by_nonce, s.req['nonce']))
        res += [(st.get_state_by_logout_state, x) for x in s.lo]
        if s.stage == 'done' and s.grant['idts'] and s.op.sid:
            res.append((st.get_state_by_sid, s.grant['sid']))
        if s.stage == 'done' and s.u:
            res.append((st.get_state_by_sub, s.grant['sub']))
        return res

    def check_all():
        for s in live:
            for fn, v in bindings(s):
                c.equal(fn(v), s.state, 'session that an identifier leads to', (fn.__name__, v))
                c.ev('identifiers of live sessions looked up')
        for s in gone:
            for fn, v in s.was:
                c.refused(lambda: fn(v), 'identifier of a forgotten session', (fn.__name__, v), allow=KeyError)
                c.ev('identifiers of forgotten sessions looked up')

    def clear():
        if not live:
            return
        s = rng.choice(live)
        s.was = bindings(s)
        before = {x.state: world.record(h, x.state) for x in live if x is not s}
        what = belongings(s)
        h.clear_session(s.state)
        live.remove(s)
        gone.append(s)
        for x in live:
            c.equal(world.record(h, x.state), before[x.state], 'forgetting one session changed another')
        for st in (lambda: h.get_session_information(s.state), lambda: h.get_client_from_session_key(s.state),
                   lambda: h.clear_session(s.state), lambda: h.has_active_authentication(s.state),
                   lambda: h.get_valid_access_token(s.state), lambda: h.logout(s.state), lambda: h.close(s.state),
                   lambda: h.refresh_access_token(s.state), lambda: h.get_user_info(s.state),
                   lambda: world.context(h, s.op).state.get_state(s.state)):
            n0 = len(c.net.log)
            c.refused(st, 'use of a forgotten session', allow=KeyError)
            c.equal(len(c.net.log), n0, 'a forgotten session led to a request')
        if s.resp:
            c.refused(lambda: h.finalize(s.op.issuer, dict(s.resp)), 'response for a forgotten session')
            c.equal(world.record(h, s.state), None, 'a late response brought a forgotten session back')
        clients = list(h.issuer2rp.values())
        txt = '\n'.join(json.dumps(x.client_get('service_context').dump(), default=repr, ensure_ascii=False) for x in clients)
        for k, v in what.items():
            c.check(v not in txt, 'something of a forgotten session is exported', lambda: '%s of %s (%s)' % (k, s, v))
        n = 0
        for t, path in strings(h):
            n += 1
            for k, v in what.items():
                if v in t:
                    raise Violation('something of a forgotten session is still there', '%s at %s: %s' % (k, path, short(t, 100)))
        c.ev('strings reachable from the handler searched', n)
        c.seen('forgotten', s.stage, tuple(sorted(k.rstrip('0123456789') for k in what)), len(live) > 0)

    for _ in range(rng.randint(2, 4)):
        login()
    for _ in range(rng.randint(5, 10)):
        rng.choice([login, refresh, logout, clear, check_all])()
    while len(live) > 1 and rng.random() < .7:
        clear()
    check_all()
    for s in live:
        if s.stage == 'done' and s.grant['ats']:
            # still usable
            n0 = len(c.net.log)
            h.get_valid_access_token(s.state)
    c.refused(lambda: h.get_session_information('unknown'), 'unknown session', allow=KeyError)


def run(r):
    r.cases('scale', 2, scale, thorough=40)
    r.cases('crowd', 2, crowd, thorough=40)
    r.cases('arguments', 100, arguments, thorough=4000)
    r.cases('store', 600, store, thorough=30000, share=.6)
    r.cases('handler', 120, handler, thorough=4000)
