"""C20: cookies come back as sent or not at all."""
import base64
import re
import time
from http.cookies import CookieError, SimpleCookie

from core import Violation, short
from vclock import CLOCK

from oidcrp.cookie import CookieDealer, InvalidCookieSign, make_cookie, parse_cookie

RULE = ('A case is a cookie made through the public functions and read back from a Cookie header a browser would send, unaltered, '
        'altered (every character of it in family flips, structural changes in family forge) or with other keys. Non-trivial: a '
        'reading that was judged; distinct by (mode, shape of payload, alteration, outcome).')
ASSUMPTIONS = ['a type given to CookieDealer.create_cookie does not contain "::"',
               'an alteration that the Cookie or base64 syntax defines as equivalent (quoting, ignored characters) is no alteration']

ALPHA = ['abc', 'XYZ019', '-_.~', '!#$%&\'*+', ' ', '  ', ',', ';', '=', '"', '\\', '|', '::', ':', '/', '?', '(', ')<>@', '{}', '[]',
         'åäö', 'ÿ', '日本語', '😀', '\u00a0', '\t', '\n', '\r\n', '\x00', '\x7f', '\x1b', '%20', '\\073', '\\"', 'e\u0301', '\u2028']
NAMES = ['oidc_cookie', 'session', 'a', 'A-b_c.d', 'kaka1', '__Host-sid', "x!#$%&'*+-.^_`|~y"]
DATE = re.compile(r'^(Mon|Tue|Wed|Thu|Fri|Sat|Sun), (\d\d)-(\w{3})-(\d{4}) (\d\d):(\d\d):(\d\d) GMT$')
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


def payload(rng):
    k = rng.random()
    if k < .05:
        return ''
    if k < .3:
        return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(rng.randint(1, 40)))
    if k < .9:
        return ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 12)))
    return ''.join(chr(rng.choice([rng.randint(0, 127), rng.randint(128, 0xd7ff), rng.randint(0xe000, 0x10ffff)]))
                   for _ in range(rng.randint(1, 30)))


def shape(s):
    return (len(s) > 0, '|' in s, '::' in s, '"' in s, ';' in s, any(ord(x) > 127 for x in s), any(ord(x) < 32 for x in s))


def key(rng):
    r = rng.random()
    if r < .35:
        return bytes(rng.randrange(256) for _ in range(rng.choice([16, 20, 32, 64])))
    if r < .7:
        return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(rng.choice([16, 32, 50]))).encode()
    return ''.join(rng.choice('abcåäö日0123456789') for _ in range(24))


def attrs(txt):
    """name, raw value and attributes of a Set-Cookie value, read the way RFC 6265 5.2 says."""
    first, _, rest = txt.partition(';')
    name, _, val = first.partition('=')
    at = {}
    for a in rest.split(';') if rest else []:
        k, _, v = a.partition('=')
        at.setdefault(k.strip().lower(), []).append(v.strip())
    return name.strip(), val.strip(), at


def header(rng, raw, other=True):
    """The Cookie header sent by a browser that has got this cookie (and others)."""
    jar = [raw]
    if other and rng.random() < .5:
        for _ in range(rng.randint(1, 3)):
            jar.insert(rng.randint(0, len(jar)), rng.choice(['_ga=GA1.2.3', 'theme=dark', 'x="a b"', 'e=', 'prefs=a|b|c', 'tok=a=b==']))
    return '; '.join(jar)


def read(c, fn):
    """What came out: ('ok', value) | ('none',) | ('sign',)."""
    try:
        r = fn()
    except InvalidCookieSign:
        return ('sign',)
    except Exception as err:
        raise Violation('reading a cookie ended in %s' % type(err).__name__, repr(err))
    return ('none',) if r is None else ('ok', r)


def epoch(txt):
    import calendar
    m = DATE.match(txt)
    if not m:
        raise Violation('expiry is not a cookie date', txt)
    d = m.groups()
    t = calendar.timegm((int(d[3]), MONTHS.index(d[2]) + 1, int(d[1]), int(d[4]), int(d[5]), int(d[6])))
    if time.strftime('%a', time.gmtime(t)) != d[0]:
        raise Violation('expiry has the wrong day of the week', txt)
    return t


def made(c, rng, load=None, enc=None, seed=None, **kw):
    CLOCK.advance(rng.choice([0, 1, 3600, 86400 * rng.randint(1, 900)]))
    p = dict(name=rng.choice(NAMES), load=payload(rng) if load is None else load, seed=seed or key(rng))
    if enc if enc is not None else rng.random() < .5:
        p['enc_key'] = key(rng)
    r = rng.random()
    if r < .4:
        p['timestamp'] = rng.choice(['1', '0', '123456789', str(int(CLOCK.now)), '2024-01-01T00:00:00Z'])
    p.update(kw)
    now = int(CLOCK.now)
    while True:
        try:
            hdr, txt = make_cookie(**p)
            break
        except CookieError:
            # the standard library makes no cookies with control characters in clear text
            c.check(not p.get('enc_key') and any(ord(x) < 32 or ord(x) == 127 for x in p['load']), 'no cookie made', repr(p['load']))
            c.ev('control characters refused')
            p['load'] = payload(rng)
    c.equal(hdr, 'Set-Cookie', 'header name')
    c.log('cookie', txt=txt, load=p['load'])
    name, raw, at = attrs(txt)
    c.equal(name, p['name'], 'cookie name')
    c.check('\n' not in txt and '\r' not in txt and '\x00' not in txt, 'control characters in the header', repr(txt))
    return p, p.get('timestamp') or str(now), name + '=' + raw, raw, at, now


# ---------------------------------------------------------------- round trip
def f_round(c, rng, i):
    p, ts, pair, raw, at, now = made(c, rng, secure=rng.random() < .6, http_only=rng.random() < .6,
                                     same_site=rng.choice(['', 'None', 'Lax', 'Strict']), expire=rng.choice([0, 0, 1, 5, 60, 100000, -1]),
                                     domain=rng.choice(['', 'example.org', '.rp.example.org']), path=rng.choice(['', '/', '/a/b', '/rp-1_x']))
    enc = p.get('enc_key')
    # attributes
    c.equal(at.get('domain'), [p['domain']] if p['domain'] else None, 'domain')
    c.equal(at.get('path'), [p['path']] if p['path'] else None, 'path')
    c.equal('secure' in at, p['secure'], 'secure attribute')
    c.equal('httponly' in at, p['http_only'], 'HttpOnly attribute')
    c.equal(at.get('samesite'), [p['same_site']] if p['same_site'] else None, 'SameSite attribute')
    if p['expire']:
        c.check(len(at.get('expires', [])) == 1, 'no expiry in the cookie')
        c.check(abs(epoch(at['expires'][0]) - (now + 60 * p['expire'])) <= 1, 'expiry', at['expires'])
    else:
        c.check('expires' not in at, 'expiry although not asked for')
    c.check(set(at) <= {'domain', 'path', 'secure', 'httponly', 'samesite', 'expires'}, 'attributes nobody asked for', str(at))
    h = header(rng, pair)
    if rng.random() < .3:
        h = h.encode('utf-8')
    got = read(c, lambda: parse_cookie(p['name'], p['seed'], h, enc))
    c.equal(got, ('ok', (p['load'], ts)), 'cookie does not come back as sent', lambda: 'load=%r' % p['load'])
    c.ev('cookies read back')
    c.seen(bool(enc), shape(p['load']), bool(p['expire']))
    # time passes, the order of keys' types does not matter
    CLOCK.advance(rng.choice([0, 10, 10 ** 6]))
    s2 = p['seed'].encode() if isinstance(p['seed'], str) else p['seed']
    c.equal(read(c, lambda: parse_cookie(p['name'], s2, h, enc)), got, 'reading depends on the type of the key')
    # no cookie by that name
    c.equal(read(c, lambda: parse_cookie(p['name'] + 'X', p['seed'], h, enc)), ('none',), 'cookie under another name')
    for none in ('', None, 'x', 'a=', 'other=1|2|3'):
        if p['name'] == 'a' and none == 'a=':
            continue
        c.equal(read(c, lambda: parse_cookie(p['name'], p['seed'], none, enc)), ('none',), 'no cookie', none)


# ---------------------------------------------------------------- confidentiality
def f_secret(c, rng, i):
    secret = ''.join(rng.choice('ABCDEFGHJKLMNPQRSTUVWXYZ23456789') for _ in range(rng.randint(8, 40)))
    p, ts, pair, raw, at, now = made(c, rng, load=secret, enc=True)
    forms = [secret, secret.encode().hex(), base64.b64encode(secret.encode()).decode().rstrip('='),
             base64.b64encode(secret.encode()).decode(), secret[::-1]]
    for k in (1, 2):   # the other alignments of base64
        forms.append(base64.b64encode(b'\0' * k + secret.encode()).decode()[4:-4])
    dec = b''.join(base64.b64decode(x + '==') for x in SimpleCookie(pair)[p['name']].value.split('|')[1:])
    for f in forms:
        c.check(len(f) < 6 or f not in pair, 'payload visible in an encrypted cookie', pair)
    c.check(secret.encode() not in dec, 'payload visible in an encrypted cookie', pair)
    # the same cookie twice: no nonce is used twice
    kw = {k: v for k, v in p.items()}
    seen = set()
    for _ in range(20):
        v = SimpleCookie(make_cookie(**kw)[1])[p['name']].value.split('|')
        c.check(v[1] not in seen, 'nonce used twice', v[1])
        seen.add(v[1])
        c.check(v[2] != SimpleCookie(pair)[p['name']].value.split('|')[2], 'same cipher text twice')
    c.ev('encrypted cookies searched for the payload')
    c.seen(len(secret))


# ---------------------------------------------------------------- tampering
def same(enc, a, b):
    """Whether two cookie values mean the same (the encodings of the parts leave no room for a difference in meaning)."""
    if a == b:
        return True
    if enc:
        pa, pb = a.split('|'), b.split('|')
        if len(pa) != len(pb) or pa[0] != pb[0]:
            return False
        try:
            return [base64.b64decode(x) for x in pa[1:]] == [base64.b64decode(x) for x in pb[1:]]
        except ValueError:
            return False
    return False


def judge(c, p, ts, value, forged, hdr, what, reader=None):
    """A forged cookie is either syntactically the same or refused."""
    enc = bool(p.get('enc_key'))
    try:
        m = SimpleCookie(hdr).get(p['name'])
    except Exception:
        m = None
    eq = m is not None and same(enc, value, m.value)
    got = read(c, lambda: parse_cookie(p['name'], p['seed'], hdr, p.get('enc_key')))
    c.ev('altered cookies judged')
    c.ev('altered cookies: %s' % got[0])
    if got[0] == 'ok':
        if not eq:
            # HMAC over payload and time stamp without anything in between
            if not enc and ''.join(got[1]) == p['load'] + ts:
                c.finding('cookie-boundary-shift', 'payload %r time stamp %r accepted as %r' % (p['load'], ts, got[1]))
            else:
                raise Violation('altered cookie accepted', '%s: %r -> %r gives %r' % (what, value, forged, got[1]))
        else:
            c.equal(got[1], (p['load'], ts), 'equivalent cookie gives another value')
    c.seen(enc, what, got[0])
    return got


def quote(name, value):
    """Cookie header with this value, quoted when needed."""
    sc = SimpleCookie()
    sc[name] = value
    return sc.output(header='').strip()


def f_flips(c, rng, i):
    p, ts, pair, raw, at, now = made(c, rng)
    value = SimpleCookie(pair)[p['name']].value
    enc = bool(p.get('enc_key'))
    pos = list(range(len(value)))
    if len(pos) > 60 and c.run.quick:
        pos = rng.sample(pos, 60)
    for k in pos:
        for new in {chr(ord(value[k]) ^ 1), rng.choice('0123456789abcdefABCDEF+/=|'), '', value[k] + rng.choice('0aA|='),
                    value[k].swapcase()}:
            f = value[:k] + new + value[k + 1:]
            if f != value:
                try:
                    h = quote(p['name'], f)
                except CookieError:
                    continue
                judge(c, p, ts, value, f, h, 'character %s' % ('removed' if not new else 'inserted' if len(new) > 1 else 'changed'))
    # decoded bytes
    if enc:
        parts = value.split('|')
        for j in (1, 2, 3):
            b = base64.b64decode(parts[j])
            for k in range(min(len(b), 40)):
                nb = b[:k] + bytes([b[k] ^ (1 << rng.randrange(8))]) + b[k + 1:]
                f = '|'.join(parts[:j] + [base64.b64encode(nb).decode()] + parts[j + 1:])
                g = judge(c, p, ts, value, f, quote(p['name'], f), 'bit of part %d' % j)
                c.check(g[0] != 'ok', 'altered cookie accepted', f)
            for nb in (b[:-1], b + b'\0', b'', b[1:], b'\0' * len(b)):
                f = '|'.join(parts[:j] + [base64.b64encode(nb).decode()] + parts[j + 1:])
                if nb != b:
                    judge(c, p, ts, value, f, quote(p['name'], f), 'length of part %d' % j)
    else:
        load, t, sig = value.rsplit('|', 2)
        # the separator moved: what is signed does not tell where the payload ends
        both = load + t
        for k in rng.sample(range(len(both) + 1), min(8, len(both) + 1)):
            if k != len(load):
                f = '|'.join([both[:k], both[k:], sig])
                try:
                    h = quote(p['name'], f)
                except CookieError:
                    continue
                judge(c, p, ts, value, f, h, 'separator moved')
        for s in ('', '0' * 40, sig[:39], sig + '0', sig.upper(), sig[::-1], sig[1:] + sig[0], ' ' + sig, sig[:20], 'None', 'é' * 40):
            if s != sig:
                judge(c, p, ts, value, s, quote(p['name'], '|'.join([load, t, s])), 'signature replaced')


def f_forge(c, rng, i):
    """Parts of several cookies, other keys, other modes."""
    seed = key(rng)
    enc = rng.random() < .5
    ek = key(rng)
    kw = {'enc_key': ek} if enc else {}
    p, ts, pair, raw, at, now = made(c, rng, enc=False, seed=seed, **kw)
    p2, ts2, pair2, _, _, _ = made(c, rng, enc=False, seed=seed, **kw)
    p2['name'] = p['name']
    v1 = SimpleCookie(pair)[p['name']].value
    v2 = list(SimpleCookie(pair2).values())[0].value
    valid = {(p['load'], ts), (p2['load'], ts2)}
    # splice
    a, b = (v1.split('|'), v2.split('|')) if enc else (v1.rsplit('|', 2), v2.rsplit('|', 2))
    n = len(a)
    for mask in range(1, 2 ** n - 1):
        f = '|'.join(b[k] if mask >> k & 1 else a[k] for k in range(n))
        if f in (v1, v2):
            continue
        got = read(c, lambda: parse_cookie(p['name'], seed, quote(p['name'], f), p.get('enc_key')))
        if got[0] == 'ok' and got[1] not in valid:
            if not enc and got[1][0] + got[1][1] in (p['load'] + ts, p2['load'] + ts2):
                c.finding('cookie-boundary-shift', str(got))
            else:
                raise Violation('cookie put together from two is accepted', '%r + %r -> %r' % (v1, v2, got))
        elif got[0] == 'ok':
            # the result is one of the two only if the other's differing parts mean the same
            c.check(same(enc, f, v1) or same(enc, f, v2) or not enc, 'cookie put together from two is accepted', f)
        c.ev('spliced cookies judged')
        c.seen('splice', enc, mask, got[0])
    # keys
    hdr = header(rng, p['name'] + '=' + pair.split('=', 1)[1])
    sb = seed.encode() if isinstance(seed, str) else seed
    others = [key(rng), sb[:-1], sb + b'\0', sb + b'x', bytes([sb[0] ^ 1]) + sb[1:], b'0' * 16]
    for s in others:
        if not enc and (s if isinstance(s, bytes) else s.encode()).rstrip(b'\0') == sb.rstrip(b'\0'):
            continue     # HMAC pads keys with zero bytes
        got = read(c, lambda: parse_cookie(p['name'], s, hdr, p.get('enc_key')))
        c.check(got[0] != 'ok', 'cookie accepted with another seed', lambda: '%r %r' % (seed, s))
        c.seen('seed', enc, got[0])
    if enc:
        eb = ek.encode() if isinstance(ek, str) else ek
        for e in [key(rng), eb[:-1], eb + b'x', bytes([eb[0] ^ 1]) + eb[1:]]:
            got = read(c, lambda: parse_cookie(p['name'], seed, hdr, e))
            c.check(got[0] != 'ok', 'cookie accepted with another encryption key')
        got = read(c, lambda: parse_cookie(p['name'], seed, hdr))
        c.check(got[0] != 'ok', 'encrypted cookie accepted without key', str(got))
        # nothing at all, garbage
    for f in ['', '|', '||', '|||', '||||', 'a|b', 'a|b|c', 'a|b|c|d', 'a|b|c|d|e', '|' * 20, 'AAAA|AAAA|AAAA|AAAA', '1|' + 'A' * 16 + '||',
              '1|é|é|é', '%s|%s|' % (p['load'], ts), '%s|%s|None' % (p['load'], ts), '\udcff' * 3]:
        try:
            h = quote(p['name'], f)
            h.encode()
        except (UnicodeEncodeError, CookieError):
            continue
        got = read(c, lambda: parse_cookie(p['name'], seed, h, p.get('enc_key')))
        c.check(got[0] != 'ok', 'garbage accepted', '%r -> %r' % (f, got))
        c.seen('garbage', enc, got[0])
    # raw header text, not built by a library
    for h in [p['name'], p['name'] + '=', p['name'] + '="', p['name'] + '=\\', '=x', ';;;', 'Path=/; ' + p['name'], '\x00', p['name'] + '=\x00',
              p['name'] + '="\\777"', 'é=é', ',', p['name'] + ' = a|b|c', '$Version=1; ' + p['name'] + '=a|b|c']:
        got = read(c, lambda: parse_cookie(p['name'], seed, h, p.get('enc_key')))
        c.check(got[0] != 'ok', 'garbage accepted', '%r -> %r' % (h, got))
        got = read(c, lambda: parse_cookie(p['name'], seed, h.encode(), p.get('enc_key')))
        c.check(got[0] != 'ok', 'garbage accepted', '%r -> %r' % (h, got))


# ---------------------------------------------------------------- CookieDealer
class Srv(object):
    pass


def f_dealer(c, rng, i):
    def server():
        s = Srv()
        s.symkey = rng.choice([None, key(rng)])
        if rng.random() < .6:
            s.seed = key(rng)
        s.cookie_name = rng.choice(NAMES)
        if rng.random() < .7:
            s.cookie_domain = rng.choice(['', None, 'rp.example.org'])
        if rng.random() < .7:
            s.cookie_path = rng.choice(['', None, '/', '/rp'])
        return s
    s = server()
    ttl = rng.choice([0, 1, 5, 60, 1440])
    d = CookieDealer(s, ttl) if rng.random() < .8 else CookieDealer(s)
    ttl = d.cookie_ttl
    d2 = CookieDealer(server())
    c.check(bool(s.seed), 'dealer without a seed')
    jar = {}
    for step in range(rng.randint(2, 6)):
        CLOCK.advance(rng.choice([0, 1, 61, 5000]))
        value, typ = payload(rng), rng.choice(['sso', '', 'upm', 'x|y', 'a:b', 'åäö', 'a b', '"q"', ';'])
        name = rng.choice([None, None, 'other', 'third'])
        ask = rng.choice([-1, -1, 0, 1, 30])
        # ':' at the seams would move the separator
        arg = [value] if rng.random() < .1 else value
        now = int(CLOCK.now)
        try:
            hdr, txt = d.create_cookie(arg, typ, cookie_name=name, ttl=ask)
        except CookieError:
            c.check(not s.symkey and any(ord(x) < 32 or ord(x) == 127 for x in value), 'no cookie made', repr(value))
            continue
        nm, raw, at = attrs(txt)
        c.equal(nm, name or s.cookie_name, 'cookie name')
        want = ttl if ask < 0 else ask
        if want:
            c.check(abs(epoch(at['expires'][0]) - now - 60 * want) <= 1, 'life time of a cookie', txt)
        else:
            c.check('expires' not in at, 'life time of a cookie', txt)
        c.equal(at.get('domain'), [s.cookie_domain] if getattr(s, 'cookie_domain', None) else None, 'domain')
        c.equal(at.get('path'), [s.cookie_path] if getattr(s, 'cookie_path', None) else None, 'path')
        c.check('secure' in at and 'httponly' in at, 'cookie without Secure or HttpOnly', txt)
        jar[nm] = (nm + '=' + raw, value, str(now), typ)
        c.log('set', txt=txt)
        h = '; '.join(x[0] for x in jar.values())
        for n2, (_, v, t, ty) in jar.items():
            got = read(c, lambda: d.get_cookie_value(h, n2))
            c.equal(got, ('ok', (v, t, ty)), 'dealer does not give back what went in', n2)
            c.ev('cookies read back')
            c.seen('dealer', bool(s.symkey), shape(v), ty, step)
            got = read(c, lambda: d2.get_cookie_value(h, n2))
            c.check(got[0] != 'ok', 'cookie of another server accepted', str(got))
        # cookies under each other's name are authentic for this server; moved payloads are not
        pair, v, t, ty = jar[nm]
        val = SimpleCookie(pair)[nm].value
        for _ in range(12):
            k = rng.randrange(len(val))
            f = val[:k] + rng.choice(['', '|', '::', '0', 'a', val[k] + '|']) + val[k + 1:]
            if rng.random() < .4 and not s.symkey:
                # moving the separators
                f = val.replace('|', '', 1)
                k = rng.randrange(len(f))
                f = f[:k] + '|' + f[k:]
            if same(bool(s.symkey), val, f):
                continue
            try:
                h = quote(nm, f)
            except CookieError:
                continue
            got = read(c, lambda: d.get_cookie_value(h, nm))
            c.check(got[0] != 'ok' or got[1] == (v, t, ty) and s.symkey and same(True, val, f), 'altered cookie accepted',
                    lambda: '%r -> %r -> %r' % (val, f, got))
            c.ev('altered cookies judged')
            c.seen('dealer altered', bool(s.symkey), got[0])
    # deletion
    CLOCK.advance(rng.choice([0, 7, 86400 * 365]))
    now = int(CLOCK.now)
    name = rng.choice([None, 'other'])
    hdr, txt = d.delete_cookie(name)
    nm, raw, at = attrs(txt)
    c.equal(nm, name or s.cookie_name, 'name of the deletion cookie')
    c.check('expires' in at and epoch(at['expires'][0]) < now, 'deletion cookie has not expired', txt)
    c.equal(at.get('domain'), [s.cookie_domain] if getattr(s, 'cookie_domain', None) else None, 'domain of the deletion cookie')
    c.equal(at.get('path'), [s.cookie_path] if getattr(s, 'cookie_path', None) else None, 'path of the deletion cookie')
    hdr, txt = d.create_cookie('v', 't', ttl=rng.choice([-1, 0, 50]), kill=True)
    _, _, at = attrs(txt)
    c.check('expires' in at and epoch(at['expires'][0]) < now, 'killed cookie has not expired', txt)
    c.seen('deleted', bool(s.symkey))
    c.equal(read(c, lambda: d.get_cookie_value(None, 'a')), ('none',), 'no cookie')
    c.equal(read(c, lambda: d.get_cookie_value('a=b', None)), ('none',), 'no cookie')


def run(r):
    r.cases('round', 700, f_round, thorough=30000, share=.3)
    r.cases('secret', 60, f_secret, thorough=2000, share=.15)
    r.cases('flips', 60, f_flips, thorough=2400, share=.4)
    r.cases('forge', 150, f_forge, thorough=6000, share=.5)
    r.cases('dealer', 200, f_dealer, thorough=10000)
