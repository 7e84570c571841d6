"""Tokens and key jars made independently of the code under test (fixed test keys in keys.json)."""
import base64
import functools
import json
import os

from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import SIGNER_ALGS
from cryptojwt.key_bundle import KeyBundle
from cryptojwt.key_jar import KeyJar

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "keys.json")) as fp:
    MATERIAL = json.load(fp)


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def jdump(x):
    return json.dumps(x, separators=(",", ":")).encode()


@functools.lru_cache(None)
def key(name):
    return key_from_jwk_dict(dict(MATERIAL[name]), private=True)


@functools.lru_cache(None)
def public_pem(name):
    from cryptography.hazmat.primitives import serialization as s
    return key(name).public_key().public_bytes(s.Encoding.PEM, s.PublicFormat.SubjectPublicKeyInfo)


@functools.lru_cache(200000)
def _sign(name, alg, data):
    k = key(name)
    secret = k.key if MATERIAL[name]["kty"] == "oct" else k.private_key()
    return b64(SIGNER_ALGS[alg].sign(data, secret))


def sign(name, alg, data):
    """The signature over data by the named key under alg."""
    if alg in (None, "") or alg.lower() == "none":
        return ""
    return _sign(name, alg, data)


def jws(payload, alg, name, kid=None, header=None):
    h = {"alg": alg} if alg is not None else {}
    if kid is not None:
        h["kid"] = kid
    h.update(header or {})
    data = b64(jdump(h)) + "." + (payload if isinstance(payload, str) else b64(jdump(payload)))
    return data + "." + sign(name, alg, data.encode())


def hmac_with_public(payload, alg, name, kid=None):
    """The classic confusion: the public key of an RSA key used as HMAC secret."""
    h = {"alg": alg}
    if kid is not None:
        h["kid"] = kid
    data = b64(jdump(h)) + "." + b64(jdump(payload))
    return data + "." + b64(SIGNER_ALGS[alg].sign(data.encode(), public_pem(name)))


def jar(entries, private=()):
    """entries: (owner, key name, kid, use); owners in `private` keep the private parts."""
    kj = KeyJar()
    for owner, name, kid, use in entries:
        d = dict(MATERIAL[name], kid=kid, use=use)
        if d["kty"] != "oct" and owner not in private:
            for x in ("d", "p", "q", "dp", "dq", "qi"):
                d.pop(x, None)
        kb = KeyBundle()
        kb.append(key_from_jwk_dict(d, private=owner in private))
        kj.add_kb(owner, kb)
    return kj


def tamper(token, how, payload2=None):
    """how: payload, header, sig, strip, swapsig."""
    h, p, s = token.split(".")
    dec = lambda x: json.loads(base64.urlsafe_b64decode(x + "=" * (-len(x) % 4)))
    if how == "payload":
        d = dec(p)
        d["sub"] = "mallory"
        p = b64(jdump(d))
    elif how == "header":
        d = dec(h)
        d["x"] = "y"
        h = b64(jdump(d))
    elif how == "sig":
        raw = bytearray(base64.urlsafe_b64decode(s + "=" * (-len(s) % 4)))
        raw[len(raw) // 2] ^= 1
        s = b64(bytes(raw))
    elif how == "strip":
        s = ""
    return ".".join((h, p, s))


def natural(name):
    return {"RSA": "RS256", "EC": {"P-384": "ES384", "P-521": "ES512"}.get(MATERIAL[name].get("crv"), "ES256"), "oct": "HS256"}[MATERIAL[name]["kty"]]
