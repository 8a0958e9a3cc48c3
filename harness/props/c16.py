"""C16: channel binding tokens match the server certificate."""
import datetime
import functools
import hashlib
import os
import shutil
import ssl as ssllib
import tempfile
import warnings

from hypothesis import strategies as st

import gens
import loop
import sec
import soap
import wire
from core import HarnessError, Info, Sub, clip, fail, require, same
from pypsrp.wsman import WSMan

PROPERTY = "C16"
RULE = ("certs: real TLS connections on the loopback interface, to servers with generated certificates (key type, signing key, signature algorithm, contents, signature algorithm identifiers rewritten to old, unknown or odd "
        "ones), one or two certificates after each other on one client, options generated; the channel bindings given to the security context are compared with a hash computed by hashlib from the bytes of the "
        "certificate. Non-trivial: a hash other than SHA-256 or an algorithm that falls back.")

RSA = bytes.fromhex("06092a864886f70d0101")
EC = bytes.fromhex("06082a8648ce3d0403")
# signer, hash used for signing, new algorithm identifier (old bytes -> new bytes, same length), expected digest
ALGS = {
    "rsa-sha256": ("rsa", "sha256", None, "sha256"), "rsa-sha384": ("rsa", "sha384", None, "sha384"), "rsa-sha512": ("rsa", "sha512", None, "sha512"), "rsa-sha224": ("rsa", "sha224", None, "sha224"),
    "rsa-sha1": ("rsa", "sha256", (RSA + b"\x0b", RSA + b"\x05"), "sha256"), "rsa-md5": ("rsa", "sha256", (RSA + b"\x0b", RSA + b"\x04"), "sha256"),
    "rsa-md2": ("rsa", "sha256", (RSA + b"\x0b", RSA + b"\x02"), "sha256"), "rsa-unknown": ("rsa", "sha256", (RSA + b"\x0b", RSA + b"\x6f"), "sha256"), "rsa-512-256": ("rsa", "sha256", (RSA + b"\x0b", RSA + b"\x10"), "sha256"),
    "ec-sha256": ("ec", "sha256", None, "sha256"), "ec-sha384": ("ec", "sha384", None, "sha384"), "ec-sha512": ("ec", "sha512", None, "sha512"), "ec-sha224": ("ec", "sha224", None, "sha224"),
    "ec-unknown": ("ec", "sha256", (EC + b"\x02", EC + b"\x6e"), "sha256"),
    "rsa-sha3-256": ("rsa", "sha3_256", None, "sha3_256"), "rsa-sha3-512": ("rsa", "sha3_512", None, "sha3_512"), "ec-sha3-384": ("ec", "sha3_384", None, "sha3_384"),
    "dsa-sha256": ("dsa", "sha256", None, "sha256"),
    "pss-sha256": ("pss", "sha256", None, "sha256"), "pss-sha384": ("pss", "sha384", None, "sha384"), "pss-sha512": ("pss", "sha512", None, "sha512"),
    "ed25519": ("ed25519", None, None, "sha256"), "ed448": ("ed448", None, None, "sha256"), "ed-unknown": ("ed25519", None, (b"\x06\x03\x2b\x65\x70", b"\x06\x03\x2b\x65\x7a"), "sha256"),
}
LEAF = ["rsa", "ec", "ed25519"]


@functools.lru_cache(None)
def key(kind):
    from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed448, ed25519, rsa
    return {"rsa": lambda: rsa.generate_private_key(65537, 2048), "pss": lambda: key("rsa"), "ec": lambda: ec.generate_private_key(ec.SECP384R1()), "dsa": lambda: dsa.generate_private_key(2048),
            "ed25519": ed25519.Ed25519PrivateKey.generate, "ed448": ed448.Ed448PrivateKey.generate}[kind]()


def make_cert(s):
    """-> (certificate DER, key PEM)"""
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import padding
    from cryptography.x509.oid import NameOID
    signer, hname, patch, _ = ALGS[s["alg"]]
    leaf = key(s["leaf"])
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, s["cn"])])
    b = (x509.CertificateBuilder().subject_name(name).issuer_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, "issuer")])).public_key(leaf.public_key()).serial_number(s["serial"])
         .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2090, 1, 1)))
    if s["san"]:
        b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName("h%d.example" % i) for i in range(s["san"])]), critical=False)
    h = getattr(hashes, hname.upper())() if hname else None
    kw = {}
    if signer == "pss":
        kw["rsa_padding"] = padding.PSS(padding.MGF1(h), h.digest_size)
    cert = b.sign(key(signer), h, **kw)
    der = cert.public_bytes(serialization.Encoding.DER)
    if patch:
        old, new = patch
        if s["leaf"] == "ed25519" and signer == "ed25519":
            # the key itself carries the same identifier: only the first and the last one are those of the signature
            i, j = der.index(old), der.rindex(old)
            der = der[:i] + new + der[i + len(old) : j] + new + der[j + len(old) :]
        else:
            if der.count(old) != 2:
                raise HarnessError("algorithm identifier found %d times" % der.count(old))
            der = der.replace(old, new)
    return der, leaf.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption())


cert = st.fixed_dictionaries({"alg": st.sampled_from(sorted(ALGS)), "leaf": st.sampled_from(LEAF), "cn": st.one_of(st.sampled_from(["srv", "*", "\xfc"]), st.text("abcXYZ 0-.", min_size=1, max_size=40)), "serial": st.integers(1, 2**150), "san": st.sampled_from([0, 1, 3, 60])})
cases = st.fixed_dictionaries({"certs": st.lists(cert, min_size=1, max_size=2), "auth": st.sampled_from(["negotiate", "negotiate", "kerberos", "ntlm"]), "cbt": st.sampled_from([None, True, True, False]), "encryption": st.sampled_from(["auto", "always"]),
                               "tls12": st.booleans(), "http": gens.choose(st.just(False), st.just(False), st.just(False), st.just(False), st.just(True)), "body": st.sampled_from([b"", b"x", b"y" * 5000]), "legs": st.integers(1, 2),
                               "offer": st.sampled_from(["Negotiate", "Negotiate", "Negotiate, NTLM", "Negotiate, Kerberos", "Basic realm=\"WSMAN\", Negotiate", "Negotiate, Kerberos, CredSSP, Basic realm=\"WSMAN\""])})


def server_ctx(d, i, der, keypem, tls12):
    p = os.path.join(d, "s%d.pem" % i)
    with open(p, "wb") as f:
        f.write(ssllib.DER_cert_to_PEM_cert(der).encode() + keypem)
    c = ssllib.SSLContext(ssllib.PROTOCOL_TLS_SERVER)
    c.set_ciphers("DEFAULT:@SECLEVEL=0")
    if tls12:
        c.maximum_version = ssllib.TLSVersion.TLSv1_2
    c.load_cert_chain(p)
    return c


def check(case):
    d = tempfile.mkdtemp(prefix="c16-")
    labels = set()
    try:
        certs = [make_cert(s) for s in case["certs"]]
        ctxs = [server_ctx(d, i, der, k, case["tls12"]) for i, (der, k) in enumerate(certs)]
        legs = case["legs"]

        def handler(g):
            a = g.headers.get("authorization")
            if not a:
                r = wire.Reply(401, case["body"], {"WWW-Authenticate": case["offer"]})
            else:
                i = int(sec_token(a))
                r = wire.Reply(401, b"", {"WWW-Authenticate": "Negotiate c2Vydg=="}) if i < legs else wire.Reply(200, b"answer", {"WWW-Authenticate": "Negotiate c2Vydg=="})
            return r

        def make(kw):
            return sec.FakeContext(kw, [b"%d" % (i + 1) for i in range(legs)], complete_at=legs + 1)

        with loop.Loop(handler, None if case["http"] else ctxs[0]) as lp, sec.contexts(make) as made, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kw = {} if case["cbt"] is None else {"negotiate_send_cbt": case["cbt"]}
            w = WSMan("127.0.0.1", port=lp.port, ssl=not case["http"], auth=case["auth"], username="u", password="p", cert_validation=False, no_proxy=True, encryption="never" if case["http"] else "auto", **kw)
            for i, s in enumerate(case["certs"]):
                if not case["http"]:
                    lp.tls = ctxs[i]
                lp.drop_all()
                got = w.transport.send(b"hello")
                same(got, b"answer", "answer")
                same(len(made), i + 1, "security contexts made")
                cb = made[i].kw.get("channel_bindings")
                if case["http"] or case["cbt"] is False:
                    require(cb is None, "channel bindings are sent %s", "over HTTP" if case["http"] else "although they are disabled")
                    labels.add("none")
                    continue
                require(cb is not None, "no channel bindings for a certificate signed with %s", s["alg"])
                digest = ALGS[s["alg"]][3]
                want = b"tls-server-end-point:" + hashlib.new(digest, certs[i][0]).digest()
                require(cb.application_data == want, "channel binding data for a certificate signed with %s: got %r, want %r", s["alg"], cb.application_data, want)
                same((bytes(cb.initiator_address or b""), bytes(cb.acceptor_address or b""), int(cb.initiator_addrtype), int(cb.acceptor_addrtype)), (b"", b"", 0, 0), "addresses of the channel bindings")
                if digest != "sha256" or "sha256" not in s["alg"]:
                    labels.add(s["alg"])
            if lp.errors:
                raise lp.errors[0]
            w.transport.session.close() if getattr(w.transport, "session", None) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return Info(bool(labels), sorted(labels))


def sec_token(a):
    import base64
    return base64.b64decode(a.split(" ")[1]).decode()


SUBS = [Sub("certs", lambda: cases, check, quick=120, thorough=2500, qshards=6, tshards=8)]
