"""C01: strings survive CLIXML serialization exactly."""
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

import gens
import refclixml as rc
from core import Info, Sub, fail, require, same
from pypsrp.complex_objects import GenericComplexObject
from pypsrp.serializer import Serializer, TaggedValue

PROPERTY = "C01"
RULE = ("Strings are built from fragments that imitate escapes, control, surrogate-range, non-BMP and XML-forbidden characters, "
        "plus free Unicode text. A case is non-trivial when its text holds a character that needs escaping or an underscore "
        "followed by x/X, or (decode) the document text holds an escape or an underscore.")

STRS = ["S", "SBK", "URI", "XD"]
_NEED = re.compile("_[xX]|[\x00-\x1f\x7f-\x9f\ufffe\uffff\U00010000-\U0010ffff]")


def labels(s):
    l = []
    if re.search("_[xX]", s):
        l.append("underscore-x")
    if re.search("_x[0-9A-Fa-f]{4}_", s):
        l.append("looks-like-escape")
    if re.search("[\x00-\x1f\x7f-\x9f]", s):
        l.append("control")
    if re.search("[\U00010000-\U0010ffff]", s):
        l.append("non-bmp")
    if "\ufffe" in s or "\uffff" in s:
        l.append("xml-forbidden")
    if s == "":
        l.append("empty")
    return l


def check_encode(case):
    tag, s, where = case
    ser = Serializer()
    if where == "inferred":
        el = ser.serialize(s)
        tag = "S"
    elif where == "tagged":
        el = ser.serialize(TaggedValue(tag, s))
    elif where == "list":
        el = ser.serialize([TaggedValue(tag, s), 1, TaggedValue(tag, s)])
    elif where == "dict":
        el = ser.serialize({s: TaggedValue(tag, s)})
    elif where == "prop":
        o = GenericComplexObject()
        o.adapted_properties["p"] = TaggedValue(tag, s)
        o.extended_properties["e"] = TaggedValue(tag, s)
        o.property_sets.append(TaggedValue(tag, s))
        el = ser.serialize(o)
    else:
        o = GenericComplexObject()
        o.to_string = s
        el = ser.serialize(o)
    doc = ET.tostring(el, encoding="utf-8", method="xml")
    if where in ("inferred", "tagged"):
        again = ser.serialize(s if where == "inferred" else TaggedValue(tag, s))
        require(ET.tostring(again, encoding="utf-8", method="xml") == doc, "serialized again: %s, before: %s", ascii(again.text)[:300], ascii(doc)[:300])
    node = rc.read(doc)
    if where in ("inferred", "tagged"):
        got = [node]
    elif where == "list":
        require(len(node.items) == 3, "list of 3 became %d", len(node.items))
        got = [node.items[0], node.items[2]]
    elif where == "dict":
        require(len(node.items) == 1, "dict of 1 became %d", len(node.items))
        require(node.items[0][0].tag == "S", "key tag %s", node.items[0][0].tag)
        same(node.items[0][0].value, s, "dictionary key")
        got = [node.items[0][1]]
    elif where == "prop":
        got = [node.props[0][1], node.ms[0][1], node.sets[0]]
    else:
        same(node.tostring, s, "ToString value read back from %s" % ascii(doc)[:500])
        got = []
    for g in got:
        same(g.tag, tag, "element tag")
        same(g.value, s, "string read back by a conforming reader from %s" % ascii(doc)[:500])
    return Info(bool(_NEED.search(s)), labels(s) + ["where:" + where])


def check_decode(case):
    tag, s, where, raw, upper, as_el = case
    if where == "tostring":
        spec = ("obj", {"types": ["X.Y"] + ["System.Object"], "tostring": s, "ms": [("p", ("I32", 1))]})
    elif where == "list":
        spec = ("lst", ["System.Collections.ArrayList", "System.Object"], [(tag, s), ("I32", 1), (tag, s)])
    elif where == "dict":
        spec = ("dct", ["System.Collections.Hashtable", "System.Object"], [(("S", s), (tag, s))])
    elif where == "prop":
        spec = ("obj", {"types": ["System.Object"], "props": [("p", (tag, s))], "ms": [("e", (tag, s))]})
    else:
        spec = (tag, s)
    doc = rc.write(spec, astral_raw=raw, upper=upper)
    arg = ET.fromstring(doc) if as_el else doc
    got = Serializer().deserialize(arg)
    if where == "tostring":
        same(got.to_string, s, "ToString decoded from %s" % ascii(doc)[:500])
    elif where == "list":
        same(got, [s, 1, s], "list decoded from %s" % ascii(doc)[:500])
    elif where == "dict":
        same(got, {s: s}, "dict decoded from %s" % ascii(doc)[:500])
    elif where == "prop":
        same(got.adapted_properties, {"p": s}, "properties decoded from %s" % ascii(doc)[:500])
        same(got.extended_properties, {"e": s}, "properties decoded from %s" % ascii(doc)[:500])
    else:
        same(got, s, "%s decoded from %s" % (tag, ascii(doc)[:500]))
    text = rc.encode_string(s, raw, upper)
    return Info("_" in text, labels(s) + ["where:" + where])


_E4 = re.compile("_x([0-9a-fA-F]{4})_")


def decode4(s):
    """`_xHHHH_` -> that UTF-16 unit, leftmost first, nothing else touched."""
    u, i = [], 0
    while i < len(s):
        m = _E4.match(s, i)
        if m:
            u.append(int(m.group(1), 16))
            i = m.end()
        else:
            u += rc.units(s[i])
            i += 1
    return rc.from_units(u)


def check_raw(case):
    tag, raw = case
    doc = "<%s>%s</%s>" % (tag, rc.esc(raw), tag)
    got = Serializer().deserialize(doc)
    same(got, decode4(raw), "%s decoded from %s" % (tag, ascii(doc)[:500]))
    return Info("_x" in raw, ["escape" if _E4.search(raw) else "near-escape" if "_x" in raw else "plain"])


def raw_text():
    # 8-digit and upper-case-X forms are not something a PowerShell endpoint writes: kept out
    frag = st.one_of(
        st.sampled_from(["_x000A_", "_x0041_", "_x00e9_", "_xD83D__xDE00_", "_xD83D_", "_xDE00_", "_x005F_", "_x005f_", "_xFFFE_", "_x0000_",
                         "_xZZZZ_", "_x00_", "_x004_", "_x00411_", "_x004G_", "_x____", "_x\u0660\u0661\u0662\u0663_", "_x\xe9\xe9\xe9\xe9_", "_x", "x0041_", "_", "x", "0041",
                         "\u4e00\u5f00\u7830\u3030\u3030\u3030\u3000\u5f00", "\u5f00", "\u7830", "\u3030", "\u3000", "\U0001f600", "a", "&", "<"]),
        st.integers(0, 0xFFFF).map(lambda v: "_x%04X_" % v),
        st.tuples(st.integers(0, 0xFFFF), st.integers(0, 15)).map(lambda t: "_x%s_" % "".join(c.lower() if t[1] >> i & 1 else c for i, c in enumerate("%04X" % t[0]))),
        st.characters(exclude_categories=["Cs", "Cc"], exclude_characters="\ufffe\uffff"),
    )
    s = gens.long(st.lists(frag, min_size=1, max_size=10).map("".join), 100)
    return s.filter(lambda v: not re.search("_X|_x[0-9a-fA-F]{8}_", v))


# cjk: strings whose UTF-16BE bytes imitate an escape at an odd offset
def cjk():
    pre = st.integers(0x30, 0x4F).map(lambda h: chr(h << 8))
    ch = st.sampled_from("\u5f00\u7830\u7800\u3030\u3000\u3041\u4100\u4141\u3130\u3100")
    return st.one_of(
        st.tuples(st.just("\u4e00\u5f00\u7830"), st.lists(ch, max_size=4).map("".join), st.just("\u5f00")).map("".join),
        st.tuples(pre, st.just("\u5f00\u7830"), st.just("\u3030\u3030\u3030\u3000\u5f00")).map("".join),
        st.lists(ch, max_size=14).map("".join))


def texts(n=40):
    return gens.long(st.one_of(gens.text(n), gens.text(n), cjk()))


SUBS = [
    Sub("encode", lambda: st.tuples(st.sampled_from(STRS), texts(), st.sampled_from(["inferred", "tagged", "list", "dict", "prop", "tostring"])),
        check_encode, quick=2500, thorough=60000, qshards=2, tshards=8),
    Sub("decode", lambda: st.tuples(st.sampled_from(STRS), texts(), st.sampled_from(["plain", "list", "dict", "prop", "tostring"]),
        st.booleans(), st.booleans(), st.booleans()), check_decode, quick=2500, thorough=60000, qshards=2, tshards=8),
    Sub("raw-escapes", lambda: st.tuples(st.sampled_from(STRS), raw_text()), check_raw, quick=2500, thorough=60000, qshards=2, tshards=8),
]
