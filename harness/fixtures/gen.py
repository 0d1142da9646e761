#!/usr/bin/env python3
"""Makes ../src/fixtures.rs: keys, certificates and signed tokens for the signature checks. Run once;
the output is committed (ECDSA signatures differ from run to run)."""
import base64, json, os, subprocess, tempfile
T = tempfile.mkdtemp()
def sh(*a, inp=None): return subprocess.run(a, input=inp, check=True, capture_output=True).stdout
def b64u(b): return base64.urlsafe_b64encode(b).rstrip(b"=").decode()
out = ["//! Generated by fixtures/gen.py: do not edit.\n"]
def c(n, s): out.append(f'pub const {n}: &str = r#"{s}"#;\n')
def key(n):
    p = f"{T}/{n}.pem"
    open(p, "wb").write(sh("openssl", "ecparam", "-name", "prime256v1", "-genkey", "-noout"))
    der = sh("openssl", "ec", "-in", p, "-pubout", "-outform", "DER", "-conv_form", "uncompressed")
    x, y = der[-64:-32], der[-32:]
    priv = sh("openssl", "ec", "-in", p, "-outform", "DER")
    d = priv[7:39]
    c(n + "_JWK", json.dumps({"kty": "EC", "crv": "P-256", "x": b64u(x), "y": b64u(y)}))
    c(n + "_SPKI", der.hex())
    c(n + "_D", d.hex())
    return p
def sign(p, msg):
    der = sh("openssl", "dgst", "-sha256", "-sign", p, inp=msg)
    i = 2
    r = []
    for _ in range(2):
        assert der[i] == 2
        l = der[i + 1]; r.append(int.from_bytes(der[i + 2:i + 2 + l], "big").to_bytes(32, "big")); i += 2 + l
    return r[0] + r[1]
def token(p, h, b):
    m = b64u(json.dumps(h, separators=(",", ":")).encode()) + "." + b64u(json.dumps(b, separators=(",", ":")).encode())
    return m + "." + b64u(sign(p, m.encode()))
def cert(n, p, san, cn="x", ext=""):
    cnf = f"{T}/c.cnf"
    open(cnf, "w").write(f"[req]\ndistinguished_name=dn\nprompt=no\n[dn]\nCN={cn}\n[v]\n" + ext + (f"subjectAltName={san}\n" if san else "basicConstraints=CA:FALSE\n") + "[d]\nCN=ffffffff\n")
    der = sh("openssl", "req", "-x509", "-new", "-key", p, "-config", cnf, "-extensions", "v", "-days", "30000", "-sha256", "-outform", "DER")
    out.append(f'pub const {n}: &[u8] = &{list(der)};\n')
    return der
k1, k2 = key("K1"), key("K2")
REST = {"nonce": "n", "response_mode": "direct_post", "response_type": "vp_token", "response_uri": "https://v/r"}
TYP = "oauth-authz-req+jwt"
c("DID_TOKEN", token(k1, {"alg": "ES256", "kid": "did:ex:abc#k1", "typ": TYP}, {"client_id": "decentralized_identifier:did:ex:abc", **REST}))
c("DID_TOKEN_2", token(k1, {"alg": "ES256", "kid": "did:ex:abc#k1", "typ": TYP}, {"client_id": "decentralized_identifier:did:ex:abc", **REST, "nonce": "m"}))
cert("CERT_A", k1, "DNS:aaaaaaaa,URI:https://uuuuuuuu,DNS:bbbbbbbb,email:e@mmmmmmmm")
cert("CERT_B", k2, "DNS:cccccccc")
MORE = "basicConstraints=CA:FALSE\nkeyUsage=digitalSignature\nissuerAltName=DNS:hhhhhhhh\n"
cert("CERT_MANY", k1, "IP:10.0.0.1,DNS:aaaaaaaa,RID:1.2.3.4,dirName:d,DNS:*.w.ex,email:gggggggg,DNS:bbbbbbbb,DNS:" + "l" * 60 + ".ex,URI:kkkkkkkk,DNS:dddddddd,otherName:1.2.3.4;UTF8:jjjjjjjj,DNS:eeeeeeee", "cccccccc", MORE)
cert("CERT_CN", k1, None, "aaaaaaaa")
cert("CERT_CRIT", k1, "critical,DNS:bbbbbbbb", "aaaaaaaa")
cert("CERT_URI", k1, "URI:aaaaaaaa")
cert("CERT_NONE", k1, None)
import hashlib
while True:  # a hash whose text tells the base64 alphabets apart
    ca = cert("CERT_C", k1, "DNS:v.example")
    h = b64u(hashlib.sha256(ca).digest())
    if "-" in h and "_" in h: break
    out.pop()
c("CERT_C_HASH", b64u(hashlib.sha256(ca).digest()))
x5c = [base64.b64encode(ca).decode()]
c("SAN_TOKEN", token(k1, {"alg": "ES256", "x5c": x5c, "typ": TYP}, {"client_id": "x509_san_dns:v.example", **REST}))
c("HASH_TOKEN", token(k1, {"alg": "ES256", "x5c": x5c, "typ": TYP}, {"client_id": "x509_hash:" + b64u(hashlib.sha256(ca).digest()), **REST}))
# a token that brings its own key or certificate, and tokens signed by another key of the chain
k2jwk = json.loads([l for l in out if "K2_JWK" in l][0].split('#"')[1].split('"#')[0])
c("DID_TOKEN_JWK", token(k2, {"alg": "ES256", "jwk": k2jwk, "kid": "did:ex:abc#k1", "typ": TYP}, {"client_id": "decentralized_identifier:did:ex:abc", **REST}))
LONG = "did:web:" + "abcdefghij" * 30
c("DID_TOKEN_LONG", token(k1, {"alg": "ES256", "kid": LONG + "#k1", "typ": TYP}, {"client_id": "decentralized_identifier:" + LONG, **REST}))
c("DID_LONG", LONG)
cb = bytes(json.loads([l for l in out if "CERT_B:" in l][0].split("&[u8] = &")[1].rstrip(";\n")))
both = x5c + [base64.b64encode(cb).decode()]
c("SAN_TOKEN_BOTH", token(k1, {"alg": "ES256", "x5c": both, "typ": TYP}, {"client_id": "x509_san_dns:v.example", **REST}))
c("SAN_TOKEN_OTHER", token(k2, {"alg": "ES256", "x5c": both, "typ": TYP}, {"client_id": "x509_san_dns:v.example", **REST}))
c("SAN_TOKEN_JWK", token(k2, {"alg": "ES256", "jwk": k2jwk, "x5c": x5c, "typ": TYP}, {"client_id": "x509_san_dns:v.example", **REST}))
open(os.path.dirname(os.path.abspath(__file__)) + "/../src/fixtures.rs", "w").write("".join(out))
