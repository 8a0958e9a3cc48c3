"""C02: values round-trip through CLIXML with their types and order intact."""
import copy
import uuid
import xml.etree.ElementTree as ET
from queue import Queue

from hypothesis import strategies as st

import gens
import refclixml as rc
from core import Info, Sub, clip, fail, require, same
from pypsrp.complex_objects import Color, CommandType, Coordinates, DictionaryMeta, GenericComplexObject, ListMeta, ObjectMeta, PSThreadOptions, QueueMeta, Size, StackMeta
from pypsrp.serializer import Serializer, TaggedValue

PROPERTY = "C02"
RULE = ("Value trees over every primitive tag (inferred and explicit), None, lists, dictionaries, queues, enums and property bags, and "
        "top-level values with explicit metadata (typed lists, stacks, queues, ordered dictionaries). Non-trivial: the tree has a "
        "container with two or more entries of different tags, or a primitive at a boundary of its range (primitives sub-check: any value that is not zero or empty).")

# ----- value specs (plain data)
#  ("p", tag, value, explicit)   primitive; explicit -> wrapped in TaggedValue
#  ("none",) ("l", [..]) ("d", [(k, v)]) ("q", [..]) ("ie", [..]) ("e", cls, value) ("o", {..}) ("xy", x, y)
ENUMS = {"Color": (Color, ["System.ConsoleColor"], {0: "Black", 9: "Blue", 15: "White"}),
         "PSThreadOptions": (PSThreadOptions, ["System.Management.Automation.Runspaces.PSThreadOptions"], {0: "Default", 1: "UseNewThread", 2: "ReuseThread", 3: "UseCurrentThread"})}
_RANGES = dict(rc._INT)


def prims():
    out = []
    for tag, (lo, hi) in _RANGES.items():
        if tag == "C":
            continue
        vals = st.one_of(st.sampled_from([lo, hi, 0 if lo <= 0 else lo, 1, hi - 1, lo + 1]), st.integers(lo, hi))
        out.append(st.tuples(st.just("p"), st.just(tag), vals, st.just(True)))
    flo = st.one_of(st.sampled_from([0.0, -0.0, 1.5, 1e300, -1e-300, 5e-324, 1e16, 1e22, 123456789.125, float("inf"), float("-inf"), float("nan")]), st.floats())
    out += [
        st.tuples(st.just("p"), st.just("I32"), st.integers(-(2**31), 2**31 - 1), st.booleans()),
        st.tuples(st.just("p"), st.just("S"), gens.text(24), st.booleans()),
        st.tuples(st.just("p"), st.just("B"), st.booleans(), st.booleans()),
        st.tuples(st.just("p"), st.just("Sg"), flo, st.booleans()),
        st.tuples(st.just("p"), st.just("Db"), flo, st.just(True)),
        st.tuples(st.just("p"), st.just("BA"), st.binary(max_size=40), st.booleans()),
        st.tuples(st.just("p"), st.just("G"), gens.uuid_str, st.booleans()),
        st.tuples(st.just("p"), st.just("C"), st.characters(max_codepoint=0xFFFF, exclude_categories=["Cs"]), st.just(True)),
        st.tuples(st.just("p"), st.just("D"), st.decimals(allow_nan=False, allow_infinity=False, places=3).map(lambda d: format(d, "f")), st.just(True)),
        st.tuples(st.just("p"), st.just("TS"), st.sampled_from(["PT0S", "PT9.0269026S", "-P1DT2H3M4.5S", "P10675199DT2H48M5.4775807S"]), st.just(True)),
        st.tuples(st.just("p"), st.just("DT"), st.sampled_from(["2008-04-11T10:42:32.2731993-07:00", "0001-01-01T00:00:00", "9999-12-31T23:59:59.9999999Z"]), st.just(True)),
        st.tuples(st.just("p"), st.just("Version"), st.lists(st.integers(0, 2**31 - 1), min_size=2, max_size=4).map(lambda l: ".".join(map(str, l))), st.just(True)),
        st.tuples(st.just("p"), st.sampled_from(["URI", "XD", "SBK"]), gens.text(16), st.just(True)),
        st.just(("none",)),
    ]
    return gens.choose(*out)


def keys():
    return st.one_of(st.tuples(st.just("p"), st.just("S"), gens.text(10), st.booleans()),
                     st.tuples(st.just("p"), st.just("I32"), st.integers(-5, 2**31 - 1), st.just(False)),
                     st.tuples(st.just("p"), st.just("G"), gens.uuid_str, st.just(False)))


def bag(ch):
    props = st.dictionaries(gens.name(6) | gens.text(6), ch, max_size=3)
    return st.fixed_dictionaries({"types": st.sampled_from([[], ["System.Object"], ["My.Type", "System.Object"], ["System.Management.Automation.PSCustomObject", "System.Object"]]),
                                  "a": props, "x": props, "s": st.none() | gens.text(8), "sets": st.lists(prims(), max_size=2)}).map(lambda d: ("o", d))


def values(leaves=14):
    return st.recursive(
        gens.choose(prims(), prims(), prims(), st.tuples(st.just("e"), st.just("Color"), st.sampled_from([0, 9, 15])),
                  st.tuples(st.just("e"), st.just("PSThreadOptions"), st.integers(0, 3))),
        lambda ch: gens.choose(st.tuples(st.just("l"), st.lists(ch, max_size=5)), st.tuples(st.just("q"), st.lists(ch, max_size=5)),
                             st.tuples(st.just("d"), st.lists(st.tuples(keys(), ch), max_size=4, unique_by=lambda kv: kv[0][2])), bag(ch)),
        max_leaves=leaves)


def build(s):
    k = s[0]
    if k == "none":
        return None
    if k == "p":
        v = s[2]
        if s[1] == "G":
            v = uuid.UUID(v)
        return TaggedValue(s[1], v) if s[3] else v
    if k == "l":
        return [build(i) for i in s[1]]
    if k == "q":
        q = Queue()
        for i in s[1]:
            q.put(build(i))
        return q
    if k == "d":
        # keys are plain values: a wrapped key is not hashable by value
        return {build(a): build(b) for a, b in s[1]}
    if k == "e":
        return ENUMS[s[1]][0](value=s[2])
    o = GenericComplexObject()
    d = s[1]
    o.types = list(d["types"])
    o.to_string = d["s"]
    for n, v in d["a"].items():
        o.adapted_properties[n] = build(v)
    for n, v in d["x"].items():
        o.extended_properties[n] = build(v)
    o.property_sets = [build(v) for v in d["sets"]]
    return o


ARR = ("System.Object[]", "System.Array", "System.Object")


def fl(v):
    return "nan" if v != v else float(v).hex()


def expect(s):
    """what a conforming reader must see (rc.plain form)"""
    k = s[0]
    if k == "none":
        return ("Nil", None)
    if k == "p":
        tag, v = s[1], s[2]
        return (tag, fl(v) if tag in ("Sg", "Db") else uuid.UUID(v) if tag == "G" else v)
    if k == "l":
        return {"types": ARR, "c": "LST", "items": [expect(i) for i in s[1]]}
    if k == "q":
        return {"types": ("System.Collections.Queue", "System.Object"), "c": "QUE", "items": [expect(i) for i in s[1]]}
    if k == "d":
        return {"types": ("System.Collections.Hashtable", "System.Object"), "c": "DCT", "items": [(expect(a), expect(b)) for a, b in s[1]]}
    if k == "e":
        return {"types": tuple(ENUMS[s[1]][1]) + ("System.Enum", "System.ValueType", "System.Object"), "tostring": ENUMS[s[1]][2][s[2]], "sets": [("I32", s[2])]}
    d, r = s[1], {}
    if d["types"]:
        r["types"] = tuple(d["types"])
    if d["s"] is not None:
        r["tostring"] = d["s"]
    if d["sets"]:
        r["sets"] = [expect(i) for i in d["sets"]]
    if d["a"]:
        r["props"] = {n: expect(v) for n, v in d["a"].items()}
    if d["x"]:
        r["ms"] = {n: expect(v) for n, v in d["x"].items()}
    return r


def snap(v):
    """a deep plain picture of a caller's value"""
    if isinstance(v, TaggedValue):
        return ("tv", v.tag, snap(v.value))
    if isinstance(v, Queue):
        return ("q", [snap(i) for i in list(v.queue)])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(i) for i in v])
    if isinstance(v, dict):
        return ("d", [(snap(a), snap(b)) for a, b in v.items()])
    if isinstance(v, GenericComplexObject):
        return ("o", v.types[:], v.to_string, snap(v.adapted_properties), snap(v.extended_properties), snap(v.property_sets))
    if isinstance(v, ObjectMeta):
        return ("m", type(v).__name__, sorted((k, snap(x)) for k, x in vars(v).items()))
    if hasattr(v, "_property_sets"):
        return ("e", type(v).__name__, v.value)
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, float):
        return fl(v)
    return (type(v).__name__, v)


def compare(s, got, path="value"):
    """got: what the product's reader gave for spec s"""
    k = s[0]
    if k == "none":
        same(got, None, path)
    elif k == "p":
        tag, v = s[1], s[2]
        if tag in ("Sg", "Db"):
            require(isinstance(got, float) and fl(got) == fl(v), "%s: got %s want %s", path, clip(got), clip(v))
        else:
            same(got, uuid.UUID(v) if tag == "G" else v, path)
    elif k == "l":
        require(type(got) is list, "%s: list came back as %s", path, clip(got))
        require(len(got) == len(s[1]), "%s: %d elements came back as %d", path, len(s[1]), len(got))
        for n, (a, b) in enumerate(zip(s[1], got)):
            if a[0] == "e" and type(b) is GenericComplexObject:
                # an enum inside an untyped array may also come back as a plain object that has its value and name
                same((b.to_string, b.property_sets), (ENUMS[a[1]][2][a[2]], [a[2]]), "%s[%d] enum" % (path, n))
            else:
                compare(a, b, "%s[%d]" % (path, n))
    elif k == "q":
        require(isinstance(got, Queue), "%s: queue came back as %s", path, clip(got))
        items = list(got.queue)
        require(len(items) == len(s[1]), "%s: %d elements came back as %d", path, len(s[1]), len(items))
        for n, (a, b) in enumerate(zip(s[1], items)):
            compare(a, b, "%s[%d]" % (path, n))
    elif k == "d":
        require(type(got) is dict, "%s: dict came back as %s", path, clip(got))
        want = {}
        for a, b in s[1]:
            want[uuid.UUID(a[2]) if a[1] == "G" else a[2]] = b
        require(list(got) == list(want), "%s: keys %s came back as %s", path, clip(list(want)), clip(list(got)))
        for key, b in want.items():
            compare(b, got[key], "%s[%s]" % (path, clip(key, 40)))
    elif k == "e":
        require(type(got) is ENUMS[s[1]][0], "%s: enum came back as %s", path, clip(got))
        same(got.value, s[2], path)
    else:
        d = s[1]
        require(type(got) is GenericComplexObject, "%s: object came back as %s", path, clip(got))
        same(list(got.types), list(d["types"]), path + " types")
        same(got.to_string, d["s"], path + " ToString")
        for nm, attr in (("a", "adapted_properties"), ("x", "extended_properties")):
            g = getattr(got, attr)
            require(set(g) == set(d[nm]), "%s %s: names %s came back as %s", path, attr, clip(sorted(d[nm])), clip(sorted(g)))
            for n, v in d[nm].items():
                compare(v, g[n], "%s.%s" % (path, n))
        require(len(got.property_sets) == len(d["sets"]), "%s property sets", path)
        for a, b in zip(d["sets"], got.property_sets):
            compare(a, b, path + " set")


def wire(el):
    return ET.tostring(el, encoding="utf-8", method="xml")


def untag_keys(s):
    k = s[0]
    if k in ("l", "q", "ie"):
        return (k, [untag_keys(i) for i in s[1]])
    if k == "d":
        return (k, [((a[0], a[1], a[2], False), untag_keys(b)) for a, b in s[1]])
    if k == "o":
        d = dict(s[1])
        d["a"] = {n: untag_keys(v) for n, v in d["a"].items()}
        d["x"] = {n: untag_keys(v) for n, v in d["x"].items()}
        return (k, d)
    return s


def depth_labels(s, out, depth=0):
    k = s[0]
    if k == "p":
        out.add("tag:" + s[1])
        if s[1] in _RANGES and s[1] != "C" and s[2] in _RANGES[s[1]]:
            out.add("range-boundary")
        if s[1] in ("Sg", "Db") and (s[2] != s[2] or abs(s[2]) == float("inf")):
            out.add("nonfinite")
        return
    kids = s[1] if k in ("l", "q", "ie") else [b for _, b in s[1]] if k == "d" else list(s[1]["a"].values()) + list(s[1]["x"].values()) if k == "o" else []
    if k not in ("none", "e"):
        out.add("kind:" + k)
    if len({(c[0], c[1] if c[0] == "p" else "") for c in kids}) > 1:
        out.add("heterogeneous")
    if depth and kids:
        out.add("nested")
    for c in kids:
        depth_labels(c, out, depth + 1)


def check_tree(case):
    spec, reuse = case
    spec = untag_keys(spec)
    val = build(spec)
    before = snap(val)
    ser = Serializer()
    doc = wire(ser.serialize(val))
    got = rc.plain(rc.read(doc))
    want = expect(spec)
    require(got == want, "a conforming reader sees %s instead of %s in %s", clip(got), clip(want), clip(doc))
    after = snap(val)
    require(after == before, "serializing changed the caller's value from %s to %s", clip(before), clip(after))
    ser2 = ser if reuse else Serializer()
    doc2 = wire(ser2.serialize(val))
    require(doc2 == doc, "serializing the same value again gave %s instead of %s", clip(doc2), clip(doc))
    back = (ser if reuse else Serializer()).deserialize(doc.decode("utf-8"))
    compare(spec, back)
    lab = set()
    depth_labels(spec, lab)
    return Info(bool(lab & {"heterogeneous", "range-boundary"}), sorted(lab))


def check_prim(case):
    info = check_tree(case)
    info.nontrivial = case[0][0] == "p" and bool(case[0][2])
    return info


# ----- explicit metadata
def metas():
    i64 = st.lists(st.integers(-(2**63), 2**63 - 1), max_size=5)
    # (what a bag without type names becomes among elements of other kinds is not part of the property, see C04)
    typed = lambda v: ("o", dict(v[1], types=["My.Type", "System.Object"])) if v[0] == "o" and not v[1]["types"] else v
    het = st.lists(gens.choose(prims(), prims(), values(4).map(typed)), max_size=6)
    return st.one_of(
        st.tuples(st.just("stack"), het, st.none() | st.just("nm")),
        st.tuples(st.just("queue"), het, st.none() | st.just("nm")),
        st.tuples(st.just("list"), het, st.none() | st.just("nm")),
        st.tuples(st.just("ie"), het, st.none() | st.just("nm")),
        st.tuples(st.just("typedlist"), i64, st.none() | st.just("nm")),
        st.tuples(st.just("tupledict"), st.lists(st.tuples(keys(), prims()), max_size=5, unique_by=lambda kv: kv[0][2]), st.none() | st.just("nm")),
        st.tuples(st.just("typeddict"), st.lists(st.tuples(st.integers(-99, 99), st.integers(0, 255)), max_size=5, unique_by=lambda kv: kv[0]), st.none() | st.just("nm")),
        st.tuples(st.just("star"), het, st.none() | st.just("nm")),
        st.tuples(st.just("optional"), het, st.none() | st.just("nm")),
    )


def check_meta(case):
    kind, data, nm = case
    types = None
    if kind in ("stack", "queue", "list", "ie", "star", "optional"):
        vals = [build(s) for s in data]
        exp = [expect(s) for s in data]
    if kind == "stack":
        meta, value = StackMeta(name=nm), vals
        want = {"types": ("System.Collections.Stack", "System.Object"), "c": "STK", "items": exp[::-1]}
    elif kind == "queue":
        meta = QueueMeta(name=nm, list_types=["System.Collections.Queue", "X.Y", "System.Object"])
        value = Queue(maxsize=len(vals) + 2 if len(vals) % 2 else 0)
        for v in vals:
            value.put(v)
        want = {"types": ("System.Collections.Queue", "X.Y", "System.Object"), "c": "QUE", "items": exp}
    elif kind in ("list", "ie"):
        meta, value = ListMeta("LST" if kind == "list" else "IE", name=nm, list_types=["System.Collections.ArrayList", "System.Object"]), vals
        want = {"types": ("System.Collections.ArrayList", "System.Object"), "c": "LST" if kind == "list" else "IE", "items": exp}
    elif kind == "typedlist":
        t = ["System.Collections.Generic.List`1[[System.Int64, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object"]
        meta, value = ListMeta(name=nm, list_value_meta=ObjectMeta("I64"), list_types=t), list(data)
        want = {"types": tuple(t), "c": "LST", "items": [("I64", v) for v in data]}
    elif kind == "tupledict":
        meta = DictionaryMeta(name=nm)
        value = tuple((build(a), build(b)) for a, b in data)
        want = {"types": ("System.Collections.Hashtable", "System.Object"), "c": "DCT", "items": [(expect(a), expect(b)) for a, b in data]}
    elif kind == "typeddict":
        how = len(data) % 3  # named, without a name, or the same for both
        km = ObjectMeta("I64", name="Key") if how == 1 else ObjectMeta("I64")
        vm = km if how == 2 else ObjectMeta("By", name="Value") if how == 1 else ObjectMeta("By")
        meta = DictionaryMeta(name=nm, dict_key_meta=km, dict_value_meta=vm, dict_types=["My.Dict", "System.Object"])
        value = dict(data)
        want = {"types": ("My.Dict", "System.Object"), "c": "DCT", "items": [(("I64", a), (vm.tag, b)) for a, b in data]}
    elif kind == "star":
        # one metadata object used for values of different types
        meta = ObjectMeta(name=nm)
        before = snap(meta)
        ser = Serializer()
        for v, e in zip(vals, exp):
            name, node = rc.Reader().node(rc.parse_xml(wire(ser.serialize(v, meta))))
            same(name, nm, "name")
            require(rc.plain(node) == e, "with reused metadata a reader sees %s instead of %s", clip(rc.plain(node)), clip(e))
        require(snap(meta) == before, "serializing changed the caller's metadata from %s to %s", clip(before), clip(snap(meta)))
        return Info(len({x[0] for x in data}) > 1, ["star"])
    else:
        meta = ObjectMeta(name=nm, optional=True)
        ser = Serializer()
        for v, e in zip(vals, exp):
            el = ser.serialize(v, copy.copy(meta))
            if v is None:
                require(el is None, "an optional missing value was written as %s", clip(wire(el) if el is not None else None))
            else:
                require(rc.plain(rc.read(wire(el))) == e, "optional value %s read as %s", clip(e), clip(wire(el)))
        return Info(("Nil", None) in exp, ["optional"])
    b_val, b_meta = snap(value), snap(meta)
    ser = Serializer()
    doc = wire(ser.serialize(value, meta))
    name, node = rc.Reader().node(rc.parse_xml(doc))
    same(name, nm, "element name")
    got = rc.plain(node)
    require(got == want, "a conforming reader sees %s instead of %s", clip(got), clip(want))
    require(snap(value) == b_val, "serializing changed the caller's value from %s to %s", clip(b_val), clip(snap(value)))
    require(snap(meta) == b_meta, "serializing changed the caller's metadata from %s to %s", clip(b_meta), clip(snap(meta)))
    doc2 = wire(ser.serialize(value, meta))
    require(doc == doc2, "serializing the same value again gave %s instead of %s", clip(doc2), clip(doc))
    back = Serializer().deserialize(doc.decode())
    if kind == "stack":
        compare(("l", data[::-1]), back)
    elif kind == "queue":
        compare(("q", data), back)
    elif kind == "list":
        compare(("l", data), back)
    elif kind == "typedlist":
        same(back, data, "typed list")
    elif kind == "tupledict":
        compare(("d", data), back)
    return Info(len(data) > 1, [kind])


# ----- many elements, and deep nesting
def larges():
    return st.tuples(st.sampled_from(["l", "q", "d", "stack", "typedlist", "tupledict", "ie", "o"]), st.integers(17, 400), prims(), st.integers(1, 40), st.integers(0, 2))


def check_large(case):
    kind, n, odd, depth, nm = case
    odd = untag_keys(odd)
    elems = [("p", "I32", i, False) if i % 7 else ("p", "S", "s%d" % i, False) for i in range(n)]
    elems[n // 2] = odd
    if kind in ("l", "q"):
        spec = (kind, elems)
        for i in range(depth):
            spec = ("l", [spec]) if i % 3 else ("d", [(("p", "S", "k", False), spec)])
        info = check_tree((spec, bool(nm)))
    elif kind == "d":
        spec = ("d", [(("p", "I32", 3 * i, False), e) for i, e in enumerate(elems)])
        info = check_tree((spec, bool(nm)))
    elif kind == "o":
        d = {"types": ["T%d" % i for i in range(n % 40)] + ["System.Object"], "a": {"a%d" % i: e for i, e in enumerate(elems)}, "x": {"x%d" % i: e for i, e in enumerate(elems)}, "s": None, "sets": elems}
        info = check_tree((("o", d), bool(nm)))
    elif kind == "typedlist":
        info = check_meta(("typedlist", [i * 10**15 for i in range(n)], None))
    elif kind == "tupledict":
        info = check_meta(("tupledict", [(("p", "I32", 3 * i, False), e) for i, e in enumerate(elems)], None))
    else:
        info = check_meta((kind if kind != "l" else "list", elems, None))
    return Info(True, ["%s>=%d" % (kind, 100 if n >= 100 else 17)])


SUBS = [
    Sub("large", larges, check_large, quick=250, thorough=4000, tshards=2),
    Sub("tree", lambda: st.tuples(values(), st.booleans()), check_tree, quick=1500, thorough=40000, qshards=3, tshards=8),
    Sub("primitives", lambda: st.tuples(prims(), st.booleans()), check_prim, quick=2500, thorough=40000, tshards=4),
    Sub("metadata", metas, check_meta, quick=1500, thorough=30000, tshards=4),
]
