"""An independent, minimal JOSE implementation (does not use cryptojwt).

Used by the fake providers to make well-formed and malformed tokens, and by the
monitors to verify what the library produces.
"""
import base64
import hashlib
import hmac
import json
import os

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa
from cryptography.hazmat.primitives.asymmetric.utils import (decode_dss_signature,
                                                             encode_dss_signature)

_Orig = rsa.RSAPrivateNumbers
_loaded = {}


class _Numbers:
    """Private keys are loaded time and again; checking the primes every time is what takes time."""

    def __init__(self, p, q, d, dmp1, dmq1, iqmp, public_numbers):
        self._o = _Orig(p, q, d, dmp1, dmq1, iqmp, public_numbers)

    def private_key(self, backend=None, **kw):
        k = (self._o.d, self._o.public_numbers.n)
        if k not in _loaded:
            _loaded[k] = self._o.private_key(unsafe_skip_rsa_key_validation=True)
        return _loaded[k]

    def __getattr__(self, a):
        return getattr(self._o, a)


rsa.RSAPrivateNumbers = _Numbers

HASH = {'256': hashes.SHA256, '384': hashes.SHA384, '512': hashes.SHA512}
CURVE = {'ES256': (ec.SECP256R1, 32, 'P-256'), 'ES384': (ec.SECP384R1, 48, 'P-384'),
         'ES512': (ec.SECP521R1, 66, 'P-521')}
CRV = {'P-256': ec.SECP256R1, 'P-384': ec.SECP384R1, 'P-521': ec.SECP521R1}


def b64e(b):
    if isinstance(b, str):
        b = b.encode()
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def b64d(s):
    if isinstance(s, str):
        s = s.encode()
    return base64.urlsafe_b64decode(s + b'=' * (-len(s) % 4))


def i2b(i, n=None):
    n = n or (i.bit_length() + 7) // 8 or 1
    return i.to_bytes(n, 'big')


class Key:
    """kty RSA / EC / oct"""

    def __init__(self, kty, kid='', priv=None, pub=None, secret=None, crv=''):
        self.kty, self.kid, self.priv, self.secret, self.crv = kty, kid, priv, secret, crv
        self.pub = pub or (priv.public_key() if priv else None)

    @classmethod
    def rsa(cls, kid, size=2048):
        return cls('RSA', kid, rsa.generate_private_key(public_exponent=65537, key_size=size))

    @classmethod
    def ec(cls, kid, crv='P-256'):
        return cls('EC', kid, ec.generate_private_key(CRV[crv]()), crv=crv)

    @classmethod
    def oct(cls, secret, kid=''):
        return cls('oct', kid, secret=secret if isinstance(secret, bytes) else secret.encode())

    @classmethod
    def from_jwk(cls, d):
        if d['kty'] == 'RSA':
            n, e = (int.from_bytes(b64d(d[k]), 'big') for k in ('n', 'e'))
            pub = rsa.RSAPublicNumbers(e, n)
            if 'd' in d:
                x = int.from_bytes(b64d(d['d']), 'big')
                p, q = rsa.rsa_recover_prime_factors(n, e, x)
                priv = rsa.RSAPrivateNumbers(p, q, x, rsa.rsa_crt_dmp1(x, p), rsa.rsa_crt_dmq1(x, q),
                                             rsa.rsa_crt_iqmp(p, q), pub).private_key()
                return cls('RSA', d.get('kid', ''), priv)
            return cls('RSA', d.get('kid', ''), pub=pub.public_key())
        if d['kty'] == 'EC':
            x, y = (int.from_bytes(b64d(d[k]), 'big') for k in ('x', 'y'))
            if 'd' in d:
                z = int.from_bytes(b64d(d['d']), 'big')
                return cls('EC', d.get('kid', ''), ec.derive_private_key(z, CRV[d['crv']]()), crv=d['crv'])
            return cls('EC', d.get('kid', ''), crv=d['crv'],
                       pub=ec.EllipticCurvePublicNumbers(x, y, CRV[d['crv']]()).public_key())
        if d['kty'] == 'oct':
            return cls.oct(b64d(d['k']), d.get('kid', ''))
        raise ValueError(d)

    def jwk(self, use='sig', private=False):
        d = {'kty': self.kty}
        if self.kid:
            d['kid'] = self.kid
        if use:
            d['use'] = use
        if self.kty == 'RSA':
            p = self.pub.public_numbers()
            d.update(n=b64e(i2b(p.n)), e=b64e(i2b(p.e)))
            if private:
                q = self.priv.private_numbers()
                d.update(d=b64e(i2b(q.d)), p=b64e(i2b(q.p)), q=b64e(i2b(q.q)))
        elif self.kty == 'EC':
            p = self.pub.public_numbers()
            n = {'P-256': 32, 'P-384': 48, 'P-521': 66}[self.crv]
            d.update(crv=self.crv, x=b64e(i2b(p.x, n)), y=b64e(i2b(p.y, n)))
            if private:
                d['d'] = b64e(i2b(self.priv.private_numbers().private_value, n))
        else:
            d['k'] = b64e(self.secret)
        return d


def sign_raw(alg, key, msg):
    if alg == 'none':
        return b''
    fam, sz = alg[:2], alg[2:]
    if fam == 'HS':
        return hmac.new(key.secret, msg, getattr(hashlib, 'sha' + sz)).digest()
    h = HASH[sz]()
    if fam == 'RS':
        return key.priv.sign(msg, padding.PKCS1v15(), h)
    if fam == 'PS':
        return key.priv.sign(msg, padding.PSS(padding.MGF1(HASH[sz]()), padding.PSS.MAX_LENGTH), h)
    if fam == 'ES':
        r, s = decode_dss_signature(key.priv.sign(msg, ec.ECDSA(h)))
        n = CURVE[alg][1]
        return i2b(r, n) + i2b(s, n)
    raise ValueError(alg)


def verify_raw(alg, key, msg, sig):
    """True/False; False also for key type / algorithm mismatch."""
    fam, sz = alg[:2], alg[2:]
    try:
        if fam == 'HS':
            return key.kty == 'oct' and hmac.compare_digest(
                hmac.new(key.secret, msg, getattr(hashlib, 'sha' + sz)).digest(), sig)
        h = HASH[sz]()
        if fam == 'RS':
            if key.kty != 'RSA':
                return False
            key.pub.verify(sig, msg, padding.PKCS1v15(), h)
        elif fam == 'PS':
            if key.kty != 'RSA':
                return False
            key.pub.verify(sig, msg, padding.PSS(padding.MGF1(HASH[sz]()), padding.PSS.AUTO), h)
        elif fam == 'ES':
            n = CURVE[alg][1]
            if key.kty != 'EC' or key.crv != CURVE[alg][2] or len(sig) != 2 * n:
                return False
            key.pub.verify(encode_dss_signature(int.from_bytes(sig[:n], 'big'),
                                                int.from_bytes(sig[n:], 'big')), msg, ec.ECDSA(h))
        else:
            return False
        return True
    except InvalidSignature:
        return False


def jws(payload, alg, key=None, headers=None, kid=True):
    hdr = {'alg': alg}
    if kid and key is not None and key.kid:
        hdr['kid'] = key.kid
    if headers:
        hdr.update(headers)
        hdr = {k: v for k, v in hdr.items() if v is not None}
    body = payload if isinstance(payload, (bytes, str)) else json.dumps(payload)
    inp = b64e(json.dumps(hdr)) + '.' + b64e(body)
    return inp + '.' + b64e(sign_raw(alg, key, inp.encode()))


def parts(token):
    """(header dict, payload dict, signing input, signature) of a compact JWS."""
    h, p, s = token.split('.')
    return json.loads(b64d(h)), json.loads(b64d(p)), (h + '.' + p).encode(), b64d(s)


def check(token, keys, algs=None):
    """Verify a JWS with any of the keys. Returns (header, payload, key) or None."""
    h, p, inp, sig = parts(token)
    if algs is not None and h.get('alg') not in algs:
        return None
    for k in keys:
        if verify_raw(h['alg'], k, inp, sig):
            return h, p, k
    return None


def left_hash(alg, value):
    d = hashlib.new('sha' + (alg[2:] if alg != 'none' else '256'), value.encode()).digest()
    return b64e(d[:len(d) // 2])


# ---- JWE (decryption only) ---------------------------------------------------
def _kdf(z, alg_id, keylen, h):
    """Concat KDF of RFC 7518 4.6.2."""
    def lp(b):
        return len(b).to_bytes(4, 'big') + b
    other = lp(alg_id.encode()) + lp(b64d(h.get('apu', ''))) + lp(b64d(h.get('apv', ''))) + (keylen * 8).to_bytes(4, 'big')
    out, n = b'', 1
    while len(out) < keylen:
        out += hashlib.sha256(n.to_bytes(4, 'big') + z + other).digest()
        n += 1
    return out[:keylen]


ENC_LEN = {'A128CBC-HS256': 32, 'A192CBC-HS384': 48, 'A256CBC-HS512': 64, 'A128GCM': 16, 'A192GCM': 24, 'A256GCM': 32}


def jwe_decrypt(token, key):
    """(header, plaintext) of a compact JWE, with the private key of the receiver. Raises when it is not valid."""
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    from cryptography.hazmat.primitives.ciphers.aead import AESGCM
    from cryptography.hazmat.primitives.keywrap import aes_key_unwrap
    from cryptography.hazmat.primitives.padding import PKCS7
    h64, ek, iv, ct, tag = token.split('.')
    h = json.loads(b64d(h64))
    ek, iv, ct, tag = (b64d(x) for x in (ek, iv, ct, tag))
    alg, enc = h['alg'], h['enc']
    n = ENC_LEN[enc]
    if alg in ('RSA-OAEP', 'RSA-OAEP-256'):
        hh = hashes.SHA1() if alg == 'RSA-OAEP' else hashes.SHA256()
        cek = key.priv.decrypt(ek, padding.OAEP(padding.MGF1(hh), hh, None))
    elif alg == 'RSA1_5':
        cek = key.priv.decrypt(ek, padding.PKCS1v15())
    elif alg.startswith('ECDH-ES'):
        epk = Key.from_jwk(h['epk'])
        z = key.priv.exchange(ec.ECDH(), epk.pub)
        if alg == 'ECDH-ES':
            cek = _kdf(z, enc, n, h)
        else:
            cek = aes_key_unwrap(_kdf(z, alg, {'A128KW': 16, 'A192KW': 24, 'A256KW': 32}[alg[8:]], h), ek)
    else:
        raise ValueError(alg)
    if len(cek) != n:
        raise ValueError('key length')
    aad = h64.encode()
    if enc.endswith('GCM'):
        return h, AESGCM(cek).decrypt(iv, ct + tag, aad)
    mac = hmac.new(cek[:n // 2], aad + iv + ct + (len(aad) * 8).to_bytes(8, 'big'),
                   {32: hashlib.sha256, 48: hashlib.sha384, 64: hashlib.sha512}[n]).digest()[:n // 2]
    if not hmac.compare_digest(mac, tag):
        raise ValueError('tag')
    d = Cipher(algorithms.AES(cek[n // 2:]), modes.CBC(iv)).decryptor()
    u = PKCS7(128).unpadder()
    return h, u.update(d.update(ct) + d.finalize()) + u.finalize()


def jwe_encrypt(plaintext, key, alg='RSA-OAEP', enc='A128CBC-HS256', headers=None):
    """Compact JWE for the owner of key. alg: RSA-OAEP, RSA-OAEP-256, RSA1_5 or ECDH-ES."""
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    from cryptography.hazmat.primitives.ciphers.aead import AESGCM
    from cryptography.hazmat.primitives.padding import PKCS7
    if isinstance(plaintext, str):
        plaintext = plaintext.encode()
    n = ENC_LEN[enc]
    h = {'alg': alg, 'enc': enc}
    if key.kid:
        h['kid'] = key.kid
    h.update(headers or {})
    h = {k: v for k, v in h.items() if v is not None}
    ek = b''
    if alg == 'ECDH-ES':
        eph = ec.generate_private_key(key.pub.curve)
        n_ = eph.public_key().public_numbers()
        size = (key.pub.curve.key_size + 7) // 8
        h['epk'] = {'kty': 'EC', 'crv': {256: 'P-256', 384: 'P-384', 521: 'P-521'}[key.pub.curve.key_size],
                    'x': b64e(n_.x.to_bytes(size, 'big')), 'y': b64e(n_.y.to_bytes(size, 'big'))}
        h.setdefault('apu', b64e(os.urandom(16)))      # cryptojwt can't do without these
        h.setdefault('apv', b64e(os.urandom(16)))
        cek = _kdf(eph.exchange(ec.ECDH(), key.pub), enc, n, h)
    else:
        cek = os.urandom(n)
        if alg == 'RSA1_5':
            ek = key.pub.encrypt(cek, padding.PKCS1v15())
        else:
            hh = hashes.SHA1() if alg == 'RSA-OAEP' else hashes.SHA256()
            ek = key.pub.encrypt(cek, padding.OAEP(padding.MGF1(hh), hh, None))
    h64 = b64e(json.dumps(h))
    aad = h64.encode()
    if enc.endswith('GCM'):
        iv = os.urandom(12)
        x = AESGCM(cek).encrypt(iv, plaintext, aad)
        ct, tag = x[:-16], x[-16:]
    else:
        iv = os.urandom(16)
        p = PKCS7(128).padder()
        e = Cipher(algorithms.AES(cek[n // 2:]), modes.CBC(iv)).encryptor()
        ct = e.update(p.update(plaintext) + p.finalize()) + e.finalize()
        tag = hmac.new(cek[:n // 2], aad + iv + ct + (len(aad) * 8).to_bytes(8, 'big'),
                       {32: hashlib.sha256, 48: hashlib.sha384, 64: hashlib.sha512}[n]).digest()[:n // 2]
    return '.'.join([h64, b64e(ek), b64e(iv), b64e(ct), b64e(tag)])
