"""An independent CLIXML reader and writer, written from MS-PSRP section 2.2.5 and .NET's XmlConvert rules.

Nothing here uses the product.  The reader is strict: it raises Violation when a document is not what a conforming
endpoint accepts.
"""
import base64, re, uuid
import xml.etree.ElementTree as ET

from core import Violation, fail

_ESC = re.compile("_[xX]([0-9a-fA-F]{8}|[0-9a-fA-F]{4})_")

# ----- strings


def units(s):
    """UTF-16 code units of a str (lone surrogates allowed)."""
    b = s.encode("utf-16-be", "surrogatepass")
    return [b[i] << 8 | b[i + 1] for i in range(0, len(b), 2)]


def from_units(u):
    return b"".join(bytes((x >> 8, x & 255)) for x in u).decode("utf-16-be", "surrogatepass")


def decode_string(s):
    """XmlConvert.DecodeName, as PowerShell applies it to string content."""
    if "_" not in s:
        return s
    out, i, n = [], 0, len(s)
    while i < n:
        m = _ESC.match(s, i) if s[i] == "_" else None
        if m:
            v = int(m.group(1), 16)
            if len(m.group(1)) == 4:
                out.append(v)
            else:
                out.extend(units(chr(v)) if v < 0x110000 else [])
            i = m.end()
        else:
            out.extend(units(s[i]))
            i += 1
    return from_units(out)


def encode_string(s, astral_raw=False, upper=True):
    """What a PowerShell endpoint writes for s."""
    out = []
    u = units(s)
    i = 0
    while i < len(u):
        c = u[i]
        nxt = u[i + 1] if i + 1 < len(u) else 0
        if c == 0x5F and nxt in (0x78, 0x58):
            out.append("_x005F_")
        elif astral_raw and 0xD800 <= c < 0xDC00 and 0xDC00 <= nxt < 0xE000:
            out.append(from_units([c, nxt]))
            i += 1
        elif c <= 0x1F or 0x7F <= c <= 0x9F or 0xD800 <= c <= 0xDFFF or c in (0xFFFE, 0xFFFF):
            out.append(("_x%04X_" if upper else "_x%04x_") % c)
        else:
            out.append(chr(c))
        i += 1
    return "".join(out)


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def esca(s):
    return esc(s).replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")


# ----- reader


class Prim:
    __slots__ = ("tag", "value", "name", "text")

    def __init__(self, tag, value, name, text):
        self.tag, self.value, self.name, self.text = tag, value, name, text

    def __repr__(self):
        return "%s(%r)" % (self.tag, self.value)


class Obj:
    def __init__(self, rid, name):
        self.id, self.name = rid, name
        self.types, self.tostring = None, None
        self.container, self.items = None, None  # LST/IE/QUE/STK/DCT
        self.sets, self.props, self.ms = [], None, None

    def prop(self, name):
        for grp in (self.ms, self.props):
            for k, v in grp or ():
                if k == name:
                    return v
        raise Violation("object has no property %r (has %r)" % (name, self.names()))

    def has(self, name):
        return name in self.names()

    def names(self):
        return [k for g in (self.ms, self.props) for k, _ in g or ()]

    def __repr__(self):
        return "Obj#%s%r" % (self.id, self.types)


_INT = {"By": (0, 255), "SB": (-128, 127), "U16": (0, 65535), "I16": (-32768, 32767), "U32": (0, 2**32 - 1),
        "I32": (-(2**31), 2**31 - 1), "U64": (0, 2**64 - 1), "I64": (-(2**63), 2**63 - 1), "C": (0, 65535)}
_FLOAT = re.compile(r"^(INF|-INF|NaN|[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?)$")
_GUID = re.compile(r"^[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}$")
STRINGS = ("S", "URI", "XD", "SBK")
PRIMS = STRINGS + tuple(_INT) + ("B", "DT", "TS", "Sg", "Db", "D", "BA", "G", "Version", "SS", "Nil")
_CONT = ("LST", "IE", "QUE", "STK", "DCT")


def float_of(t):
    return {"INF": float("inf"), "-INF": float("-inf"), "NaN": float("nan")}.get(t) if t in ("INF", "-INF", "NaN") else float(t)


def parse_xml(text):
    """text (str or bytes) -> element; a document a conforming XML reader refuses is a violation."""
    try:
        return ET.fromstring(text if isinstance(text, bytes) else text.encode("utf-8"))
    except UnicodeEncodeError as e:
        fail("document is not encodable: %s", e)
    except ET.ParseError as e:
        fail("document is not well-formed XML: %s: %s", e, ascii(text)[:600])


class Reader:
    def __init__(self, strict=True):
        self.objs, self.tns, self.done = {}, {}, set()
        self.strict = strict

    def doc(self, text):
        return self.node(parse_xml(text))

    def node(self, el):
        name = el.attrib.get("N")
        if name is not None:
            name = decode_string(name)
        if el.tail and el.tail.strip():
            fail("stray text %r after element %s", el.tail, el.tag)
        if el.tag == "Ref":
            rid = el.attrib.get("RefId")
            if rid not in self.objs:
                fail("Ref to object %r, which does not come before it", rid)
            return name, self.objs[rid]
        if el.tag == "Obj":
            return name, self._obj(el, name)
        if el.tag in PRIMS or el.tag == "ToString":
            return name, self._prim(el, name)
        fail("unknown element %s", el.tag)

    def _prim(self, el, name):
        t, tag = el.text or "", el.tag
        if len(el):
            fail("primitive element %s has children", tag)
        extra = set(el.attrib) - {"N"}
        if extra:
            fail("unexpected attributes %r on %s", extra, tag)
        if tag in STRINGS or tag == "ToString":
            v = decode_string(t)
        elif tag in _INT:
            if not re.match(r"^-?[0-9]+$", t):
                fail("%s element has text %r", tag, t)
            v = int(t)
            lo, hi = _INT[tag]
            if not lo <= v <= hi:
                fail("%s value %d out of range", tag, v)
            if tag == "C":
                v = from_units([v])
        elif tag == "B":
            if t not in ("true", "false"):
                fail("B element has text %r", t)
            v = t == "true"
        elif tag in ("Sg", "Db"):
            if not _FLOAT.match(t):
                fail("%s element has text %r, not an XML floating point number", tag, t)
            v = float_of(t)
        elif tag == "BA" or tag == "SS":
            try:
                v = base64.b64decode(t, validate=True)
            except Exception:
                fail("%s element has text %r, not base64", tag, t[:80])
        elif tag == "G":
            if not _GUID.match(t):
                fail("G element has text %r", t)
            v = uuid.UUID(t)
        elif tag == "Nil":
            if t:
                fail("Nil with text %r", t)
            v = None
        else:
            v = t
        return Prim(tag, v, name, t)

    def _obj(self, el, name):
        rid = el.attrib.get("RefId")
        if rid is None:
            fail("Obj without RefId")
        if rid in self.objs:
            fail("two objects with RefId %r in one document", rid)
        if el.text and el.text.strip():
            fail("stray text %r in Obj", el.text)
        o = Obj(rid, name)
        self.objs[rid] = o
        for ch in el:
            tag = ch.tag
            if tag == "TN":
                if o.types is not None:
                    fail("two type-name lists on object %s", rid)
                tid = ch.attrib.get("RefId")
                if tid in self.tns:
                    fail("type-name list RefId %r defined twice", tid)
                o.types = [decode_string(t.text or "") for t in ch]
                if any(t.tag != "T" for t in ch):
                    fail("bad TN")
                self.tns[tid] = o.types
            elif tag == "TNRef":
                if o.types is not None:
                    fail("two type-name lists on object %s", rid)
                tid = ch.attrib.get("RefId")
                if tid not in self.tns:
                    fail("TNRef %r, which is not defined before it", tid)
                o.types = list(self.tns[tid])
            elif tag == "ToString":
                if o.tostring is not None:
                    fail("two ToString on object %s", rid)
                o.tostring = decode_string(ch.text or "")
            elif tag in ("Props", "MS"):
                grp = []
                for p in ch:
                    n, v = self.node(p)
                    if n is None:
                        fail("element %s in %s of object %s has no name", p.tag, tag, rid)
                    grp.append((n, v))
                if len({n for n, _ in grp}) != len(grp):
                    fail("duplicate property names in %s: %r", tag, [n for n, _ in grp])
                if getattr(o, tag.lower()) is not None:
                    fail("two %s in one object", tag)
                setattr(o, tag.lower(), grp)
            elif tag in _CONT:
                if o.container is not None:
                    fail("two containers in one object")
                o.container = tag
                o.items = []
                for it in ch:
                    if tag == "DCT":
                        if it.tag != "En":
                            fail("%s in DCT", it.tag)
                        kv = {}
                        for c in it:
                            n, v = self.node(c)
                            if n not in ("Key", "Value") or n in kv:
                                fail("bad dictionary entry part %r", n)
                            kv[n] = v
                        if set(kv) != {"Key", "Value"}:
                            fail("dictionary entry has parts %r", sorted(kv))
                        o.items.append((kv["Key"], kv["Value"]))
                    else:
                        n, v = self.node(it)
                        o.items.append(v)
            else:
                n, v = self.node(ch)
                o.sets.append(v)
        return o


def read(text, reader=None):
    return (reader or Reader()).doc(text)[1]


def plain(node, seen=None):
    """A node as comparable plain data: primitives (tag, value); objects as dicts of their parts; cycles as ('cycle', id)."""
    seen = seen or ()
    if isinstance(node, Prim):
        v = node.value
        if isinstance(v, float):
            v = "nan" if v != v else v.hex()
        return (node.tag, v)
    if node.id in seen:
        return ("cycle", node.id)
    seen = seen + (node.id,)
    d = {}
    if node.types:
        d["types"] = tuple(node.types)
    if node.tostring is not None:
        d["tostring"] = node.tostring
    if node.container:
        d["c"] = node.container
        if node.container == "DCT":
            d["items"] = [(plain(k, seen), plain(v, seen)) for k, v in node.items]
        else:
            d["items"] = [plain(i, seen) for i in node.items]
    if node.sets:
        d["sets"] = [plain(i, seen) for i in node.sets]
    if node.props:
        d["props"] = {k: plain(v, seen) for k, v in node.props}
    if node.ms:
        d["ms"] = {k: plain(v, seen) for k, v in node.ms}
    return d


# ----- writer: plain specs -> CLIXML text
#   ("S", "text") and other primitives by tag with Python values, ("Nil",)
#   ("lst"|"ie"|"que"|"stk", types, [items])    ("dct", types, [(k, v)])
#   ("obj", {types, tostring, props: [(name, spec)], ms: [(name, spec)], value: spec})
#   ("enum", types, tostring, I32)
#   ("same", spec)  a reference to the object of this very spec, or the object if it was not written yet
#   ("ref", n)  n-th object (0-based, in opening order) of this document


class Writer:
    def __init__(self, astral_raw=False, upper=True, first_ref=0, self_close=True):
        self.nobj, self.tns, self.ntn = first_ref, {}, first_ref
        self.first = first_ref
        self.written = {}
        self.astral_raw, self.upper, self.self_close = astral_raw, upper, self_close

    def s(self, v):
        return esc(encode_string(v, self.astral_raw, self.upper))

    def write(self, spec, name=None):
        n = ' N="%s"' % esca(encode_string(name)) if name is not None else ""
        k = spec[0]
        if k == "Nil":
            return "<Nil%s />" % n
        if k == "ref":
            return '<Ref%s RefId="%d" />' % (n, spec[1] + self.first)
        if k == "same":
            if id(spec[1]) in self.written:
                return '<Ref%s RefId="%d" />' % (n, self.written[id(spec[1])])
            return self.write(spec[1], name)
        if k in ("lst", "ie", "que", "stk", "dct", "obj", "enum"):
            rid = self.nobj
            self.written[id(spec)] = rid
            self.nobj += 1
            body = []
            types = spec[1] if k != "obj" else spec[1].get("types") or ()
            if types:
                key = tuple(types)
                if key in self.tns:
                    body.append('<TNRef RefId="%d" />' % self.tns[key])
                else:
                    self.tns[key] = self.ntn
                    self.ntn += 1
                    body.append('<TN RefId="%d">%s</TN>' % (self.tns[key], "".join("<T>%s</T>" % self.s(t) for t in types)))
            if k == "dct":
                es = "".join("<En>%s%s</En>" % (self.write(a, "Key"), self.write(b, "Value")) for a, b in spec[2])
                body.append("<DCT>%s</DCT>" % es if es or not self.self_close else "<DCT />")
            elif k == "enum":
                body.append("<ToString>%s</ToString>" % self.s(spec[2]))
                body.append("<I32>%d</I32>" % spec[3])
            elif k == "obj":
                d = spec[1]
                if d.get("tostring") is not None:
                    body.append("<ToString>%s</ToString>" % self.s(d["tostring"]))
                if d.get("value") is not None:
                    body.append(self.write(d["value"]))
                for g, t in (("props", "Props"), ("ms", "MS")):
                    if d.get(g):
                        body.append("<%s>%s</%s>" % (t, "".join(self.write(v, pn) for pn, v in d[g]), t))
            else:
                t = k.upper()
                es = "".join(self.write(i) for i in spec[2])
                body.append("<%s>%s</%s>" % (t, es, t) if es or not self.self_close else "<%s />" % t)
            return '<Obj%s RefId="%d">%s</Obj>' % (n, rid, "".join(body))
        v = spec[1]
        if k in STRINGS or k == "ToString":
            t = self.s(v)
        elif k == "B":
            t = "true" if v else "false"
        elif k == "C":
            t = str(units(v)[0])
        elif k in ("Sg", "Db"):
            t = "NaN" if v != v else "INF" if v == float("inf") else "-INF" if v == float("-inf") else repr(v)
        elif k in ("BA", "SS"):
            t = base64.b64encode(v).decode()
        else:
            t = str(v)
        if t == "" and self.self_close:
            return "<%s%s />" % (k, n)
        return "<%s%s>%s</%s>" % (k, n, t, k)


def write(spec, **kw):
    return Writer(**kw).write(spec)
