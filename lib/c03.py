"""C03: per-request secrets are fresh, unguessable and well formed."""
import collections
import gc
import json
import os
import random
import subprocess
import sys
import threading

import jose
import op as opmod
import world
from core import ROOT, Violation, short
from vclock import CLOCK

RULE = ('A case is a history of authorization, token, logout and DPoP requests (in one thread, many threads, forked '
        'children, fresh processes, or with the process\' pseudo random generators re-seeded or rewound); every state, '
        'nonce, code verifier, logout state and JWT identifier that leaves is collected. Non-trivial: a value that was '
        'collected and compared with all others; distinct by (kind, scenario, length).')
ASSUMPTIONS = ['unpredictability is judged by rewinding every pseudo random generator object reachable in the process, by '
               're-seeding, forking and starting fresh processes at the same virtual time, and by the distribution of the '
               'observed characters; a generator hidden in native code without state in Python would not be noticed']
UNRESERVED = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')

ALL = {}          # value -> where it was seen, over all cases of this process


def once(c, kind, value, where):
    if value in ALL:
        raise Violation('%s used before' % kind, '%r seen as %s and as %s' % (value, ALL[value], (kind,) + where))
    ALL[value] = (kind,) + where
    c.ev('values collected')


def conf(c, o, kind='static', rt='code', length=64, auth='private_key_jwt', dpop=False, pkce=True):
    ao = {}
    if pkce and 'code' in rt.split():
        ao.update(world.pkce(length, c.rng.choice(['S256', 'S384', 'S512'])))
    if dpop:
        ao.update(world.dpop())
    prefs = {'token_endpoint_auth_signing_alg': 'RS256' if auth == 'private_key_jwt' else 'HS256'}
    if kind == 'dynamic':
        return world.dynamic_conf(o, [rt], auth, add_ons=ao, prefs=prefs)
    return world.static_conf(o, response_type=rt, auth=auth, add_ons=ao, prefs=prefs,
                             discovery=kind != 'static')


def request_values(c, s, length, where):
    q = s.op.resolve(s.op.read_authz(s.url))
    c.equal(q.get('state'), s.state, 'state in URL is not the returned one')
    c.check(len(s.state) >= 24, 'state too short', s.state)
    once(c, 'state', s.state, where)
    n = q.get('nonce')
    if n is not None:
        c.check(len(n) >= 24, 'nonce too short', n)
        c.check(n != s.state, 'nonce equals state', n)
        c.check(n not in s.state and s.state not in n, 'nonce is derived from state')
        once(c, 'nonce', n, where)
    c.seen('authz', where, len(s.state), n and len(n), length)
    return q


def verifier_of(c, o, s, length, where, q):
    for rec in c.net.log:
        if rec.endpoint == 'token_endpoint' and rec.info.get('grant') is s.grant and \
                rec.info['params'].get('grant_type') == 'authorization_code':
            v = rec.info['params'].get('code_verifier')
            c.check(v is not None, 'no code verifier')
            c.equal(len(v), length, 'code verifier length')
            c.check(set(v) <= UNRESERVED, 'code verifier has other than unreserved characters', v)
            for other in (s.state, q.get('nonce')):
                if other:
                    c.check(other not in v and v not in other, 'verifier derived from state or nonce', v)
            once(c, 'verifier', v, where)
            c.seen('verifier', where, length)
            return v
    raise Violation('no token request seen', '%s' % s)


def jtis(c, where, start=0):
    for rec in c.net.log[start:]:
        a = rec.info.get('params', {}).get('_assertion') if rec.info.get('params') else None
        if a:
            j = a[1].get('jti')
            c.check(j and len(j) >= 16, 'assertion identifier too short', j)
            once(c, 'assertion jti', j, where)
            c.seen('jti', where, rec.info['params'].get('grant_type'))
        d = rec.headers.get('dpop')
        if d:
            j = jose.parts(d)[1].get('jti')
            c.check(j and len(j) >= 16, 'DPoP identifier too short', j)
            once(c, 'dpop jti', j, where)
            c.seen('dpop', where, rec.endpoint)


def distribution(c, kind, values):
    """Every position shows the variety of a uniform choice, and positions are independent."""
    n = len(values)
    length = min(len(v) for v in values)
    alphabet = set(''.join(values))
    c.check(len(alphabet) >= 16, 'alphabet of %s too small' % kind, ''.join(sorted(alphabet)))
    exp = n / len(alphabet)
    cols = [[v[i] for v in values] for i in range(length)]
    for i, col in enumerate(cols):
        cnt = collections.Counter(col)
        # Poisson tails: far beyond anything a uniform source gives
        c.check(max(cnt.values()) <= exp + 9 * exp ** .5 + 9, '%s position is not uniform' % kind,
                'position %d: %s of %d' % (i, cnt.most_common(3), n))
        c.check(len(cnt) >= len(alphabet) * .7, '%s position shows too few characters' % kind,
                'position %d: %d of %d' % (i, len(cnt), len(alphabet)))
    for i in range(length):
        for j in range(i + 1, length):
            same = sum(a == b for a, b in zip(cols[i], cols[j]))
            c.check(same <= exp + 9 * exp ** .5 + 9, '%s positions depend on each other' % kind,
                    'positions %d and %d are equal in %d of %d' % (i, j, same, n))
    for i in range(n - 1):
        same = sum(a == b for a, b in zip(values[i], values[i + 1]))
        c.check(same <= max(12, length * .3), 'consecutive %s values depend on each other' % kind, values[i:i + 2])
    c.ev('distributions checked')
    c.seen('distribution', kind, length, len(alphabet) // 8)


def history(c, rng, i):
    """Many sessions with several issuers, whole flows."""
    ops = [opmod.OP(c.net, 'https://op%d.example.com' % k, k, md={'dpop_signing_alg_values_supported': ['ES256']})
           for k in range(3)]
    length = rng.choice([43, 43, 64, 100, 128, rng.randint(43, 128)])
    rt = rng.choice(['code', 'code', 'code id_token', 'id_token', 'code id_token token'])
    dp = rng.random() < .5 and rt == 'code'
    h = world.handler({o.issuer: conf(c, o, rng.choice(['static', 'dynamic', 'static+discovery']), rt, length,
                                      rng.choice(['private_key_jwt', 'client_secret_jwt', 'client_secret_basic']), dp)
                       for o in ops})
    ss = []
    for k in range(rng.randint(4, 14)):
        s = world.begin(c, h, rng.choice(ops))
        q = request_values(c, s, length, (i,))
        ss.append((s, q))
        if rng.random() < .6:
            world.answer(c, s)
            world.finalize(c, h, s)
            if rt == 'code':
                verifier_of(c, s.op, s, length, (i,), q)
            if rt == 'code' and rng.random() < .5:
                h.refresh_access_token(s.state)
            for _ in range(rng.randint(0, 2)):
                u = h.logout(s.state)['url']
                from urllib.parse import parse_qs, urlsplit
                st = parse_qs(urlsplit(u).query)['state'][0]
                c.check(len(st) >= 24, 'logout state too short', st)
                once(c, 'logout state', st, (i,))
                c.seen('logout', len(st))
    jtis(c, (i,))


def dist(c, rng, i):
    o = opmod.OP(c.net, 'https://op.example.com', 0)
    length = [43, 64, 128][i % 3]
    h = world.handler({o.issuer: conf(c, o, 'static', 'code id_token', length)})
    h2 = world.handler({o.issuer: conf(c, o, 'static', 'code', length, 'client_secret_basic')})
    st, no, ve, ls = [], [], [], []
    n = 700
    for k in range(n):
        res = h.begin(o.issuer)
        q = o.read_authz(res['url'])
        st.append(res['state'])
        no.append(q['nonce'])
        once(c, 'state', res['state'], (i, k))
        once(c, 'nonce', q['nonce'], (i, k))
    for k in range(n):
        s = world.begin(c, h2, o)
        world.answer(c, s)
        h2.finalize_auth(h2.issuer2rp[o.issuer], o.issuer, dict(s.resp))
        h2.get_tokens(s.state)
        ve.append([r for r in c.net.log if r.endpoint == 'token_endpoint'][-1].info['params']['code_verifier'])
        from urllib.parse import parse_qs, urlsplit
        ls.append(parse_qs(urlsplit(h2.logout(s.state)['url']).query)['state'][0])
        once(c, 'verifier', ve[-1], (i, k))
        once(c, 'logout state', ls[-1], (i, k))
        if k % 100 == 0:
            c.net.log.clear()
    for kind, v in (('state', st), ('nonce', no), ('verifier', ve), ('logout state', ls)):
        distribution(c, kind, v)


def collect(h, o, c):
    """One full login, all its secrets."""
    n = len(c.net.log)
    s = world.begin(c, h, o)
    world.answer(c, s)
    world.finalize(c, h, s)
    vals = {'state': s.state, 'nonce': s.req.get('nonce')}
    for rec in c.net.log[n:]:
        if rec.thread != threading.get_ident():
            continue
        if rec.endpoint == 'token_endpoint':
            vals['verifier'] = rec.info['params'].get('code_verifier')
            a = rec.info['params'].get('_assertion')
            if a:
                vals['assertion jti'] = a[1]['jti']
        if rec.headers.get('dpop'):
            vals['dpop jti at ' + rec.endpoint] = jose.parts(rec.headers['dpop'])[1]['jti']
    from urllib.parse import parse_qs, urlsplit
    vals['logout state'] = parse_qs(urlsplit(h.logout(s.state)['url']).query)['state'][0]
    return {k: v for k, v in vals.items() if v}


def generators():
    return [g for g in gc.get_objects() if isinstance(g, random.Random) and not isinstance(g, random.SystemRandom)]


def rewind(c, rng, i):
    """Rewinding or re-seeding every pseudo random generator repeats nothing."""
    o = opmod.OP(c.net, 'https://op.example.com', 0, md={'dpop_signing_alg_values_supported': ['ES256']})
    h = world.handler({o.issuer: conf(c, o, rng.choice(['static', 'dynamic']), 'code', 64, 'private_key_jwt', True)})
    collect(h, o, c)
    mode = ['rewind', 'seed', 'seed all', 'new handler'][i % 4]
    gens = generators()
    seen = {}
    saved = [(g, g.getstate()) for g in gens]
    st = random.getstate()
    for k in range(4):
        if mode in ('rewind', 'new handler'):
            for g, x in saved:
                g.setstate(x)
            random.setstate(st)
        elif mode == 'seed':
            random.seed(4711)
        else:
            random.seed(0)
            for g in gens:
                g.seed(0)
        if mode == 'new handler':
            h = world.handler({o.issuer: conf(c, o, 'static', 'code', 64, 'private_key_jwt', True)})
        for kind, v in collect(h, o, c).items():
            if v in seen:
                raise Violation('%s repeats when the pseudo random generators are rewound' % kind, '%s: %r' % (mode, v))
            seen[v] = kind
            c.seen('rewind', mode, kind)
            c.ev('values collected')
    c.ev('pseudo random generators rewound', len(gens) + 1)


def forked(c, rng, i):
    """Children of one process do not share secrets."""
    o = opmod.OP(c.net, 'https://op.example.com', 0)
    h = world.handler({o.issuer: conf(c, o, 'static', 'code', 64, 'private_key_jwt')})
    collect(h, o, c)
    outs = []
    for k in range(4):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                vals = [collect(h, o, c) for _ in range(2)]
                os.write(w, json.dumps(vals).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        outs.append(json.loads(data))
    outs.append([collect(h, o, c)])
    seen = {}
    for k, vals in enumerate(outs):
        for d in vals:
            for kind, v in d.items():
                if v in seen:
                    raise Violation('%s shared between forked processes' % kind, v)
                seen[v] = k
                c.seen('fork', kind, k)
                c.ev('values collected')


CHILD = '''
import sys
sys.path[:0] = %r
import vclock; vclock.install()
import warnings; warnings.simplefilter('ignore')
import logging; logging.disable(logging.CRITICAL)
import net; net.install()
import core, world, json, c03
import op as opmod
import random
random.seed(1)
r = core.Run('C03', 'quick', 1)
c = core.Case(r, 'child', 0)
o = opmod.OP(c.net, 'https://op.example.com', 0)
h = world.handler({o.issuer: c03.conf(c, o, 'static', 'code', 64, 'private_key_jwt')})
print(json.dumps([c03.collect(h, o, c) for _ in range(3)]))
r.result()
'''


def fresh_process(c, rng, i):
    outs = []
    for k in range(2):
        p = subprocess.run([sys.executable, '-B', '-c', CHILD % (sys.path[:2],)], capture_output=True, text=True,
                           timeout=300, env=dict(os.environ, PYTHONHASHSEED='0'))
        if p.returncode:
            raise Violation('fresh process failed', p.stderr[-800:])
        outs.append(json.loads(p.stdout.strip().splitlines()[-1]))
    seen = {}
    for k, vals in enumerate(outs):
        for d in vals:
            for kind, v in d.items():
                if v in seen:
                    raise Violation('%s repeats in a fresh process' % kind, v)
                seen[v] = k
                c.seen('process', kind, k)
                c.ev('values collected')


def threads(c, rng, i):
    o = opmod.OP(c.net, 'https://op.example.com', 0)
    rt = rng.choice(['code', 'code id_token'])
    h = world.handler({o.issuer: conf(c, o, 'static', rt, 64, 'private_key_jwt')})
    collect(h, o, c)
    n = rng.choice([2, 4, 8])
    out, errs = [[] for _ in range(n)], []
    bar = threading.Barrier(n)
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))

    def work(k):
        try:
            bar.wait()
            for _ in range(10):
                out[k].append(collect(h, o, c))
        except BaseException as e:
            errs.append(e)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    seen = {}
    for k in range(n):
        for d in out[k]:
            for kind, v in d.items():
                if v:
                    if v in seen:
                        raise Violation('%s shared between threads' % kind, v)
                    seen[v] = k
                    c.ev('values collected')
            c.seen('threads', n, k)
    vs = [r.info['params']['code_verifier'] for r in c.net.log if r.endpoint == 'token_endpoint']
    c.equal(len(set(vs)), len(vs), 'verifier shared between threads')
    if errs:
        raise Violation('operation failed in a thread', repr(errs[0]))


def own_nonce(c, rng, i):
    """The authorization service supplies a nonce itself when the caller has none."""
    o = opmod.OP(c.net, 'https://op.example.com', 0)
    h = world.handler({o.issuer: conf(c, o, 'static', 'code id_token', 64)})
    collect(h, o, c)
    cl = h.issuer2rp[o.issuer]
    ctx = cl.client_get('service_context')
    srv = cl.client_get('service', 'authorization')
    for k in range(10):
        st = ctx.state.create_state(o.issuer)
        c.check(len(st) >= 24, 'state too short', st)
        once(c, 'state', st, (i, k))
        args = {'state': st, 'redirect_uri': world.BASE + '/cb/op0', 'response_type': 'code id_token', 'scope': ['openid']}
        info = srv.get_request_parameters(request_args=args)
        q = o.read_authz(info['url'])
        c.check(len(q.get('nonce', '')) >= 24, 'nonce too short or missing', short(q))
        c.check(q['nonce'] != st, 'nonce equals state')
        once(c, 'nonce', q['nonce'], (i, k))
        c.seen('own nonce', len(q['nonce']))


class Stream:
    """The operating system's random source, replayed: the same bytes every time, except those that are flipped."""

    def __init__(self, data, flip=None):
        self.data, self.flip, self.pos = data, flip, 0

    def __call__(self, n):
        b = bytearray(self.data[(self.pos + j) % len(self.data)] for j in range(n))
        if self.flip is not None and self.pos <= self.flip < self.pos + n:
            b[self.flip - self.pos] ^= 0x5c
        self.pos += n
        return bytes(b)


def with_entropy(stream, fn):
    import secrets
    real = (os.urandom, random._urandom)
    spots = [(m, k) for m in list(sys.modules.values()) if (getattr(m, '__name__', '') or '').startswith(('oidcrp', 'cryptojwt', 'oidcmsg'))
             for k, v in list(vars(m).items()) if v is real[0]]
    os.urandom = random._urandom = stream
    for m, k in spots:
        setattr(m, k, stream)
    try:
        return fn()
    finally:
        os.urandom, random._urandom = real
        for m, k in spots:
            setattr(m, k, real[0])


def independent(c, rng, i):
    """Each secret has randomness of its own: none can be computed from another, or from what everybody sees."""
    o = opmod.OP(c.net, 'https://op.example.com', 0)
    kind = rng.choice(['static', 'dynamic'])
    length = rng.choice([43, 64])
    h = world.handler({o.issuer: conf(c, o, kind, rng.choice(['code', 'code id_token']), length, 'private_key_jwt')})
    s = world.begin(c, h, o)
    world.answer(c, s)
    world.finalize(c, h, s)
    logout = i % 4 == 3

    def fn():
        if logout:
            from urllib.parse import parse_qs, urlsplit
            st = parse_qs(urlsplit(h.logout(s.state)['url']).query)['state'][0]
            return {'logout state': st, 'state': s.state}
        res = h.begin(o.issuer)
        q = o.resolve(o.read_authz(res['url']))
        # the challenge changes exactly when the verifier does
        return {'state': res['state'], 'nonce': q.get('nonce'), 'verifier': q.get('code_challenge')}

    data = os.urandom(4096)
    first = Stream(data)
    a = with_entropy(first, fn)
    b = with_entropy(Stream(data), fn)
    kinds = [k for k in a if a[k] and a[k] == b[k]]
    c.ev('requests replayed with the same random bytes')
    if not logout:
        c.check('verifier' in a and a['verifier'], 'no challenge', a)
    used = first.pos
    if not used or used > 1500 or sorted(kinds) != sorted(k for k in a if a[k]):
        # not all of it comes from this source, so nothing can be said about it here
        c.ev('random source not controlled')
        return
    influence = {k: 0 for k in kinds}
    for n in range(used):
        st = Stream(data, n)
        x = with_entropy(st, fn)
        c.ev('single random bytes changed')
        if st.pos != used:
            continue            # a rejected draw moves all that follow
        ch = [k for k in kinds if x[k] != a[k]]
        for k in ch:
            influence[k] += 1
        c.check(len(ch) < 2, 'secrets depend on each other', lambda: 'one random byte changes %s' % ch)
    for k in kinds:
        if logout and k == 'state':
            continue
        c.check(influence[k] >= 16, 'too little randomness in a secret', '%s: %d bytes' % (k, influence[k]))
        c.seen('independent', k, kind, length)


def run(r):
    r.cases('independent', 12, independent, thorough=160)
    r.cases('history', 120, history, thorough=4000)
    r.cases('dist', 3, dist, thorough=48)
    r.cases('rewind', 12, rewind, thorough=120)
    r.cases('forked', 4, forked, thorough=40)
    r.cases('process', 2, fresh_process, thorough=8)
    r.cases('threads', 12, threads, thorough=300)
    r.cases('own nonce', 8, own_nonce, thorough=40)
