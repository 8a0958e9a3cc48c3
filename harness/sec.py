"""Security seam: a model of a security context on both sides, MS-WSMV message framing, and a server that authenticates."""
import base64
import contextlib
import hashlib
import random
import struct

import spnego

import soap
import wire
from core import fail, require, same

SPNEGO = "application/HTTP-SPNEGO-session-encrypted"
KERBEROS = "application/HTTP-Kerberos-session-encrypted"
CREDSSP = "application/HTTP-CredSSP-session-encrypted"
MARK = b"--Encrypted Boundary"


class SealError(Exception):
    pass


class Sealer:
    """One direction of a toy AEAD: keystream and MAC under key and sequence number; header sizes and paddings are planned."""

    def __init__(self, key, headers=(16,), pads=(0,)):
        self.key, self.headers, self.pads, self.seq = key, list(headers) or [16], list(pads) or [0], 0

    def stream(self, n, seq):
        return hashlib.shake_256(self.key + struct.pack("<Q", seq)).digest(n)

    def seal(self, data):
        k = self.seq
        pad = self.pads[k % len(self.pads)]
        hl = max(13, self.headers[k % len(self.headers)])
        full = data + bytes([k & 255]) * pad
        n = len(full)
        enc = (int.from_bytes(full, "little") ^ int.from_bytes(self.stream(n, k), "little")).to_bytes(n, "little") if n else b""
        mac = hashlib.sha256(self.key + struct.pack("<QI", k, pad) + full).digest()[:8]
        self.seq += 1
        return mac + struct.pack("<IB", k, pad) + b"\x5a" * (hl - 13), enc, pad

    def open(self, header, enc):
        if len(header) < 13:
            raise SealError("the header of a sealed message has %d bytes" % len(header))
        mac, k, pad = header[:8], *struct.unpack("<IB", header[8:13])
        if k != self.seq:
            raise SealError("sealed message %d arrives, message %d is due" % (k, self.seq))
        n = len(enc)
        full = (int.from_bytes(enc, "little") ^ int.from_bytes(self.stream(n, k), "little")).to_bytes(n, "little") if n else b""
        if hashlib.sha256(self.key + struct.pack("<QI", k, pad) + full).digest()[:8] != mac:
            raise SealError("the integrity check of sealed message %d fails" % k)
        self.seq += 1
        return full[: n - pad] if pad else full, pad


class FakeContext:
    """Client security context. tokens: what step() returns, one after the other; complete after the last."""

    def __init__(self, kw, tokens, key=b"k", headers=(), pads=(), complete_at=None):
        self.kw, self.tokens, self.given = kw, list(tokens), []
        self.n = 0
        self.complete_at = len(self.tokens) if complete_at is None else complete_at
        self.out, self.in_ = Sealer(b"c2s" + key, headers, pads), Sealer(b"s2c" + key)
        self.sealed = 0

    @property
    def complete(self):
        return self.n >= self.complete_at

    def step(self, in_token=None, *a, **k):
        self.given.append(in_token)
        self.n += 1
        return self.tokens[self.n - 1] if self.n <= len(self.tokens) else None

    def wrap_winrm(self, data):
        self.sealed += 1
        return self.out.seal(bytes(data))

    def unwrap_winrm(self, header, data):
        return self.in_.open(bytes(header), bytes(data))[0]


@contextlib.contextmanager
def contexts(make):
    """spnego.client(...) calls make(kwargs) -> context; yields the list of those made."""
    made = []
    names = ["username", "password", "hostname", "service", "channel_bindings", "context_req", "protocol", "options"]

    def client(*a, **k):
        k = dict(zip(names, a), **k)
        c = make(k)
        made.append(c)
        return c

    old = spnego.client
    spnego.client = client
    try:
        yield made
    finally:
        spnego.client = old


def parse_sealed(body, protocol):
    """The body of a sealed request -> list of (declared length, header, data); strict MS-WSMV 2.2.9.1 framing."""
    out = []
    pos = 0
    while True:
        want = MARK + b"\r\n\tContent-Type: " + protocol.encode() + b"\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length="
        if body[pos:] == MARK + b"--\r\n" and out:
            return out
        require(body.startswith(want, pos), "the part at byte %d of a sealed request starts with %r, want %r", pos, body[pos : pos + len(want)], want)
        pos += len(want)
        e = body.find(b"\r\n", pos)
        num = body[pos:e]
        require(num.isdigit(), "the declared length is %r", num)
        pos = e + 2
        want = MARK + b"\r\n\tContent-Type: application/octet-stream\r\n"
        require(body.startswith(want, pos), "the data part at byte %d starts with %r, want %r", pos, body[pos : pos + len(want)], want)
        pos += len(want)
        require(len(body) - pos >= 4, "a sealed part is cut off")
        hl = struct.unpack_from("<i", body, pos)[0]
        require(0 <= hl <= len(body) - pos - 4, "a sealed part declares a header of %d bytes", hl)
        pos += 4
        e = body.find(MARK, pos + hl)
        require(e >= 0, "a sealed part has no end")
        out.append((int(num), body[pos : pos + hl], body[pos + hl : e]))
        pos = e


def build_sealed(parts, protocol, boundary="Encrypted Boundary", space="", kind=None, lengths=None, end=True):
    """parts: list of (length, header, data) -> (content type, body) of a response."""
    m = "--" + space + boundary
    b = b""
    for i, (n, header, data) in enumerate(parts):
        n = lengths[i] if lengths else n
        b += ("%s\r\n\tContent-Type: %s\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%d\r\n%s\r\n\tContent-Type: application/octet-stream\r\n" % (m, protocol, n, m)).encode()
        b += struct.pack("<i", len(header)) + header + data
    if end:
        b += ("%s--\r\n" % m).encode()
    kind = kind or ("multipart/x-multi-encrypted" if len(parts) > 1 else "multipart/encrypted")
    return '%s;protocol="%s";boundary="%s"' % (kind, protocol, boundary), b


def cut(data, sizes, most=60):
    out = []
    pos = k = 0
    sizes = [s for s in sizes if s > 0] or [len(data) or 1]
    while pos < len(data) or not out:
        n = sizes[k % len(sizes)] if k < most else len(data)
        out.append(data[pos : pos + n])
        pos += n
        k += 1
    return out
