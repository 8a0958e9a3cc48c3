"""C04: server CLIXML decodes to the values it denotes."""
import uuid
import xml.etree.ElementTree as ET
from queue import Queue

from hypothesis import strategies as st

import gens
import refclixml as rc
from core import Info, Sub, clip, fail, require, same
from pypsrp.complex_objects import (ApartmentState, Color, CommandOrigin, Coordinates, CultureInfo, GenericComplexObject, PipelineResultTypes, PSThreadOptions,
                                    RemoteStreamOptions, Size)
from pypsrp.serializer import Serializer

PROPERTY = "C04"
RULE = ("CLIXML documents written by an independent writer from generated value trees in the shapes PowerShell emits; each is decoded "
        "and compared with the value it denotes. Non-trivial: the document holds a reference, a repeated type-name list, an empty "
        "element, a typed collection or nesting of depth two.")


def flt():
    return st.one_of(st.sampled_from([0.0, 1.5, -2.25, 1e300, 5e-324, float("inf"), float("-inf"), float("nan")]), st.floats())


def prims(kinds=None):
    d = {
        "S": gens.text(16), "URI": gens.text(12), "XD": gens.text(12), "SBK": gens.text(12), "B": st.booleans(),
        "BA": st.binary(max_size=24), "G": gens.uuid_str, "Sg": flt(), "Db": flt(),
        "C": st.characters(max_codepoint=0xFFFF, exclude_categories=["Cs"]),
        "D": st.sampled_from(["0", "-1.50", "79228162514264337593543950335"]),
        "DT": st.sampled_from(["2008-04-11T10:42:32.2731993-07:00", "0001-01-01T00:00:00"]),
        "TS": st.sampled_from(["PT9.0269026S", "-P1DT2H"]),
        "Version": st.sampled_from(["6.2.1.3", "2.0"]),
    }
    for t, (lo, hi) in rc._INT.items():
        if t != "C":
            d[t] = st.one_of(st.sampled_from([lo, hi]), st.integers(lo, hi))
    ks = kinds or sorted(d)
    return gens.choose(*([st.tuples(st.just(k), d[k]) for k in ks] + ([st.just(("Nil",))] if not kinds or "Nil" in (kinds or []) else [])))


MS = ", mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089"
ELEM = {"System.String": "S", "System.Int32": "I32", "System.Int64": "I64", "System.Byte": "By", "System.Boolean": "B", "System.Double": "Db", "System.Guid": "G", "System.Uri": "URI",
        "System.Char": "C", "System.DateTime": "DT", "System.Version": "Version", "System.UInt32": "U32", "System.Single": "Sg", "System.Decimal": "D", "System.SByte": "SB"}
UNTYPED_LISTS = [["System.Object[]", "System.Array", "System.Object"], ["System.Collections.ArrayList", "System.Object"],
                 ["Deserialized.System.Object[]", "Deserialized.System.Array", "Deserialized.System.Object"],
                 ["Deserialized.System.Collections.ArrayList", "Deserialized.System.Object"],
                 ["System.Collections.Generic.List`1[[System.Object%s]]" % MS, "System.Object"],
                 ["System.Collections.ObjectModel.Collection`1[[System.Management.Automation.PSObject, System.Management.Automation, Version=3.0.0.0]]", "System.Object"],
                 ["System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Object%s]]" % MS, "System.Object"]]
DICTS = [["System.Collections.Hashtable", "System.Object"], ["Deserialized.System.Collections.Hashtable", "Deserialized.System.Object"],
         ["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"],
         ["System.Management.Automation.PSBoundParametersDictionary", "System.Collections.Generic.Dictionary`2[[System.String%s],[System.Object%s]]" % (MS, MS), "System.Object"],
         ["System.Collections.Generic.Dictionary`2[[System.String%s],[System.Object%s]]" % (MS, MS), "System.Object"],
         ["System.Collections.Generic.Dictionary`2[[System.Int32%s],[System.String%s]]" % (MS, MS), "System.Object"]]
QUEUES = [["System.Collections.Queue", "System.Object"], ["Deserialized.System.Collections.Queue", "Deserialized.System.Object"]]
STACKS = [["System.Collections.Stack", "System.Object"], ["Deserialized.System.Collections.Stack", "Deserialized.System.Object"]]
BAGS = [[], ["System.Management.Automation.PSCustomObject", "System.Object"], ["Deserialized.System.Management.Automation.PSCustomObject", "Deserialized.System.Object"],
        ["Deserialized.System.Diagnostics.Process", "Deserialized.System.ComponentModel.Component", "Deserialized.System.MarshalByRefObject", "Deserialized.System.Object"],
        ["My.Type+Nested", "My.Base", "System.Object"], ["My.Type+Nested", "System.Object"], ["Selected.System.Management.Automation.PSCustomObject", "System.Object"],
        ["my.type+nested", "My.Base", "System.Object"], ["My.Type+Nested ", "System.Object"], [" My.Type+Nested", "System.Object"], ["My_xType", "System.Object"],
        ["My.A_x0042_`1[[System.String, mscorlib]]", "My.Base", "My.Base", "System.Object"], ["A<B>&'\"C", "System.Object"], ["System.Object"], ["T\tab\nline", "System.Object"]]
ENUMS = {"System.ConsoleColor": (Color, {0: "Black", 3: "DarkCyan", 15: "White"}), "System.Management.Automation.CommandOrigin": (CommandOrigin, {0: "Runspace", 1: "Internal"}),
         "System.Management.Automation.Runspaces.PSThreadOptions": (PSThreadOptions, {0: "Default", 2: "ReuseThread"}),
         "System.Management.Automation.Runspaces.ApartmentState": (ApartmentState, {0: "STA", 1: "MTA", 2: "UNKNOWN"}),
         "System.Management.Automation.Runspaces.RemoteStreamOptions": (RemoteStreamOptions, {0: "0", 1: "AddInvocationInfoToErrorRecord", 15: "AddInvocationInfo"}),
         "My.Enum": (None, {0: "Zero", 7: "Seven"})}


def bags(ch):
    props = st.lists(st.tuples(st.one_of(gens.ident(5), gens.name(6), gens.text(5)), ch), max_size=3, unique_by=lambda p: p[0])
    return st.fixed_dictionaries({"types": st.sampled_from(BAGS), "tostring": st.none() | gens.text(8), "props": props, "ms": props,
                                  "value": st.none() | st.none() | prims(["S", "I32", "B"])}).map(lambda d: ("obj", d))


def typed_lists():
    def of(n):
        t = ELEM[n]
        names = st.sampled_from([["%s[]" % n, "System.Array", "System.Object"], ["Deserialized.%s[]" % n, "Deserialized.System.Array", "Deserialized.System.Object"],
                                 ["System.Collections.Generic.List`1[[%s%s]]" % (n, MS), "System.Object"],
                                 ["System.Collections.ObjectModel.Collection`1[[%s%s]]" % (n, MS), "System.Object"],
                                 ["Deserialized.System.Collections.Generic.List`1[[%s%s]]" % (n, MS), "Deserialized.System.Object"]])
        return st.tuples(st.just("lst"), names, st.lists(prims([t]), max_size=4))

    return st.sampled_from(sorted(ELEM)).flatmap(of)


def keys():
    return st.one_of(prims(["S"]), prims(["I32"]), prims(["G"]))


def enum():
    return st.sampled_from(sorted(ENUMS)).flatmap(lambda t: st.sampled_from(sorted(ENUMS[t][1])).map(
        lambda v: ("enum", [t, "System.Enum", "System.ValueType", "System.Object"], ENUMS[t][1][v], v)))


def trees(leaves=12):
    return st.recursive(
        gens.choose(prims(), prims(), typed_lists(), enum()),
        lambda ch: gens.choose(
            bags(ch), bags(ch),
            st.tuples(st.just("lst"), st.sampled_from(UNTYPED_LISTS), st.lists(ch.filter(lambda c: c[0] != "enum"), max_size=4)),
            st.tuples(st.just("dct"), st.sampled_from(DICTS), st.lists(st.tuples(keys(), ch), max_size=3, unique_by=lambda kv: str(kv[0]))),
            st.tuples(st.just("que"), st.sampled_from(QUEUES), st.lists(ch, max_size=3)),
            st.tuples(st.just("stk"), st.sampled_from(STACKS), st.lists(ch, max_size=3))),
        max_leaves=leaves)


def fix_typeless(spec):
    """ArrayList, queue, stack and typed-dictionary elements: a property bag without type names after an element of another
    kind is handed over as raw XML, which the host documentation describes; give such elements type names."""
    k = spec[0]
    if k in ("lst", "que", "stk"):
        items = [fix_typeless(i) for i in spec[2]]
        items = [("obj", dict(i[1], types=BAGS[1])) if i[0] == "obj" and not i[1]["types"] else i for i in items]
        return (k, spec[1], items)
    if k == "dct":
        return (k, spec[1], [(a, fix_typeless(b)) for a, b in spec[2]])
    if k == "obj":
        d = dict(spec[1])
        for g in ("props", "ms"):
            d[g] = [(n, fix_typeless(v)) for n, v in d[g]]
        return (k, d)
    return spec


def add_refs(case):
    """turn some leaves into references to an object that was opened before (a property bag, list, queue, stack, dictionary or
    enum, finished or still open)"""
    spec, picks, style, as_el, lst = case
    spec = fix_typeless(spec)
    picks = list(picks)
    order = []  # numbers of the objects opened so far, in document order
    count = [0]

    def walk(s):
        k = s[0]
        if k in ("obj", "lst", "que", "stk", "dct", "enum"):
            n = count[0]
            count[0] += 1
            order.append(n)
            if k == "obj":
                d = dict(s[1])
                for g in ("props", "ms"):
                    d[g] = [(name, leaf(v)) for name, v in d[g]]
                return ("obj", d)
            if k == "dct":
                return (k, s[1], [(a, leaf(b)) for a, b in s[2]])
            if k == "enum":
                return s
            if k == "lst" and s[1] not in UNTYPED_LISTS:
                return s
            return (k, s[1], [leaf(i) for i in s[2]])
        return s

    def leaf(v):
        if v[0] in rc.PRIMS and picks:
            p = picks.pop()
            if p % 3:
                return ("ref", order[p % len(order)])
        return walk(v)

    return walk(spec), style, as_el, lst


def docs():
    return st.tuples(trees(), st.lists(st.integers(0, 30), min_size=1, max_size=8),
                     st.tuples(st.booleans(), st.booleans(), st.sampled_from([0, 0, 3, 17]), st.booleans()), st.booleans(), st.booleans()).map(add_refs)


def fl(v):
    return "nan" if v != v else float(v).hex()


def py(spec):
    k = spec[0]
    if k == "Nil":
        return None
    if k == "G":
        return uuid.UUID(spec[1])
    return spec[1]


class Cmp:
    def __init__(self):
        self.bags = {}
        self.n = 0
        self.labels = set()

    def go(self, s, got, path, depth=0):
        k = s[0]
        if depth >= 2:
            self.labels.add("depth>=2")
        if k == "ref":
            self.labels.add("ref")
            require(got is self.bags[s[1]], "%s: a reference does not give the object it names (got %s)", path, clip(got))
            return
        if k in ("obj", "lst", "que", "stk", "dct", "enum"):
            n = self.n
            self.n += 1
            self.labels.add(k)
            self.bags[n] = got
            if k == "obj":
                d = s[1]
                require(type(got) is GenericComplexObject, "%s: property bag with types %r decoded as %s", path, d["types"], clip(got))
                same(list(got.types), list(d["types"]), path + " type names")
                same(got.to_string, d["tostring"], path + " ToString")
                same(str(got), str(d["tostring"]), path + " str()")
                for attr, g in (("adapted_properties", "props"), ("extended_properties", "ms")):
                    have = getattr(got, attr)
                    require(set(have) == {p for p, _ in d[g]}, "%s.%s: names %s, want %s", path, attr, clip(sorted(have)), clip(sorted(p for p, _ in d[g])))
                want_sets = [] if d["value"] is None else [d["value"]]
                require(len(got.property_sets) == len(want_sets), "%s: property sets %s", path, clip(got.property_sets))
                for a, b in zip(want_sets, got.property_sets):
                    self.go(a, b, path + " value", depth + 1)
                # document order: props then ms
                for attr, g in (("adapted_properties", "props"), ("extended_properties", "ms")):
                    for name, v in d[g]:
                        self.go(v, getattr(got, attr)[name], "%s.%s" % (path, name), depth + 1)
            elif k == "enum":
                cls = ENUMS[s[1][0]][0]
                if cls is None:
                    require(type(got) is GenericComplexObject, "%s: unknown enum decoded as %s", path, clip(got))
                    same((got.to_string, list(got.property_sets), list(got.types)), (s[2], [s[3]], list(s[1])), path + " unknown enum")
                else:
                    require(type(got) is cls, "%s: enum %s decoded as %s", path, s[1][0], clip(got))
                    same(got.value, s[3], path + " enum")
            elif k == "dct":
                require(type(got) is dict, "%s: dictionary decoded as %s", path, clip(got))
                want = [py(a) for a, _ in s[2]]
                require(list(got) == want, "%s: keys %s, want %s", path, clip(list(got)), clip(want))
                for (a, b) in s[2]:
                    self.go(b, got[py(a)], "%s[%s]" % (path, clip(py(a), 30)), depth + 1)
            else:
                if k == "que":
                    require(isinstance(got, Queue), "%s: queue decoded as %s", path, clip(got))
                    got = list(got.queue)
                require(type(got) is list, "%s: %s with types %r decoded as %s", path, k, s[1], clip(got))
                require(len(got) == len(s[2]), "%s: %d elements, want %d", path, len(got), len(s[2]))
                if not s[2]:
                    self.labels.add("empty-collection")
                if k == "lst" and s[1] not in UNTYPED_LISTS:
                    self.labels.add("typed-list")
                for i, (a, b) in enumerate(zip(s[2], got)):
                    self.go(a, b, "%s[%d]" % (path, i), depth + 1)
            return
        self.labels.add("prim")
        if len(s) > 1 and s[1] in ("", b""):
            self.labels.add("empty-element")
        want = py(s)
        if k in ("Sg", "Db"):
            require(isinstance(got, float) and fl(got) == fl(want), "%s: got %s want %r", path, clip(got), want)
        else:
            same(got, want, "%s (%s)" % (path, k))


INTERESTING = {"ref", "empty-element", "empty-collection", "typed-list", "depth>=2"}


def check_doc(case):
    spec, (raw, upper, first, sc), as_el, wrap = case
    doc = rc.Writer(astral_raw=raw, upper=upper, first_ref=first, self_close=sc).write(spec)
    ser = Serializer()
    c = Cmp()
    got = ser.deserialize(ET.fromstring(doc) if as_el else doc)
    try:
        c.go(spec, got, "value")
    except Exception:
        raise
    # the same decoder, after having read this document, reads another one with clashing ids the way a fresh one does
    other = rc.write(("obj", {"types": ["Other.Type", "System.Object"], "ms": [("a", ("lst", ["System.Object[]", "System.Array", "System.Object"], [("I32", 3)])), ("b", ("ref", 0))]}), first_ref=first)
    o = ser.deserialize(other)
    require(type(o) is GenericComplexObject and list(o.types) == ["Other.Type", "System.Object"] and o.extended_properties["a"] == [3] and o.extended_properties["b"] is o,
            "a document decoded after another one is decoded differently: %s", clip(getattr(o, "__dict__", o)))
    got2 = ser.deserialize(doc)
    c2 = Cmp()
    c2.go(spec, got2, "value")
    lab = c.labels
    types = [tuple(t) for t in all_types(spec, [])]
    if len(types) != len(set(types)):
        lab.add("repeated-types")
    return Info(bool(lab & (INTERESTING | {"repeated-types"})), sorted(lab))


def all_types(s, out):
    k = s[0]
    if k in ("lst", "que", "stk", "enum"):
        out.append(s[1])
        if k != "enum":
            for i in s[2]:
                all_types(i, out)
    elif k == "dct":
        out.append(s[1])
        for _, b in s[2]:
            all_types(b, out)
    elif k == "obj":
        if s[1]["types"]:
            out.append(s[1]["types"])
        for g in ("props", "ms"):
            for _, v in s[1][g]:
                all_types(v, out)
    return out


# ----- values wrapped by PowerShell as Obj around a structure: sizes and coordinates of the host
def check_struct(case):
    kind, a, b, nil = case
    if kind == "coord":
        d = ("obj", {"types": ["System.Management.Automation.Host.Coordinates", "System.ValueType", "System.Object"], "tostring": "%d,%d" % (a, b), "props": [("X", ("I32", a)), ("Y", ("I32", b))]})
        o = Serializer().deserialize(rc.write(d))
        require(type(o) is Coordinates, "coordinates decoded as %s", clip(o))
        same((o.x, o.y), (a, b), "coordinates")
    elif kind == "size":
        d = ("obj", {"types": ["System.Management.Automation.Host.Size", "System.ValueType", "System.Object"], "tostring": "%d,%d" % (a, b), "props": [("Width", ("I32", a)), ("Height", ("I32", b))]})
        o = Serializer().deserialize(rc.write(d))
        require(type(o) is Size, "size decoded as %s", clip(o))
        same((o.width, o.height), (a, b), "size")
    else:
        # neighbours of an unreadable element are all there
        d = ("obj", {"types": ["System.Object"], "props": [("before", ("I32", a)), ("odd", ("lst", ["My.Strange.Collection"], [("I32", 1)])), ("after", ("I32", b))],
                     "ms": [("x", ("Nil",) if nil else ("I32", a))]})
        o = Serializer().deserialize(rc.write(d))
        same((o.adapted_properties["before"], o.adapted_properties["after"], o.extended_properties["x"]), (a, b, None if nil else a), "neighbours of an unknown collection")
        require("odd" in o.adapted_properties, "unknown collection property is missing")
    return Info(True, [kind])


I32 = st.integers(-(2**31), 2**31 - 1)
def shallow():
    leaf = gens.choose(typed_lists(), enum(), prims())
    dct = st.tuples(st.just("dct"), st.sampled_from(DICTS), st.lists(st.tuples(keys(), leaf), max_size=3, unique_by=lambda kv: str(kv[0])))
    b = st.fixed_dictionaries({"types": st.sampled_from(BAGS), "tostring": st.none() | gens.text(8), "props": st.lists(st.tuples(gens.ident(5), gens.choose(leaf, dct)), max_size=4, unique_by=lambda p: p[0]),
                               "ms": st.lists(st.tuples(gens.ident(5), gens.choose(leaf, dct)), max_size=3, unique_by=lambda p: p[0]), "value": st.none()}).map(lambda d: ("obj", d))
    lst = st.tuples(st.just("lst"), st.sampled_from(UNTYPED_LISTS), st.lists(gens.choose(typed_lists(), prims(), b, dct), max_size=4))
    return st.tuples(gens.choose(leaf, dct, b, lst), st.lists(st.integers(0, 30), max_size=3),
                     st.tuples(st.booleans(), st.booleans(), st.sampled_from([0, 3]), st.booleans()), st.booleans(), st.booleans()).map(add_refs)


# ----- many elements, deep nesting
def larges():
    return st.tuples(st.sampled_from(["typed", "untyped", "queue", "stack", "dict", "bag", "bags", "types"]), st.integers(17, 400), prims(), st.integers(0, 25),
                     st.tuples(st.booleans(), st.booleans(), st.sampled_from([0, 0, 3, 17]), st.booleans()), st.integers(0, 4))


def check_large(case):
    kind, n, odd, depth, style, pick = case
    elems = [("I32", i) if i % 7 else ("S", "s%d" % i) for i in range(n)]
    elems[n // 2] = odd
    if kind == "typed":
        spec = ("lst", ["System.Int64[]", "System.Array", "System.Object"], [("I64", i * 10**12) for i in range(n)])
    elif kind == "untyped":
        spec = ("lst", UNTYPED_LISTS[pick], elems)
    elif kind == "queue":
        spec = ("que", QUEUES[pick % 2], elems)
    elif kind == "stack":
        spec = ("stk", STACKS[pick % 2], elems)
    elif kind == "dict":
        spec = ("dct", DICTS[pick % 3], [(("I32", 2 * i), e) for i, e in enumerate(elems)])
    elif kind == "bag":
        spec = ("obj", {"types": BAGS[1 + pick], "tostring": None, "props": [("p%d" % i, e) for i, e in enumerate(elems)], "ms": [("m%d" % i, e) for i, e in enumerate(elems)], "value": None})
    elif kind == "bags":
        # many objects, some with types of their own, then references to several of them
        spec = ("lst", UNTYPED_LISTS[0], [("obj", {"types": BAGS[1 + (i * 7 + pick) % (len(BAGS) - 1)], "tostring": str(i), "props": [("id", ("I32", i))], "ms": [], "value": None}) for i in range(n)]
                + [("ref", 1 + (i * 13) % n) for i in range(20)])
    else:
        spec = ("lst", UNTYPED_LISTS[0], [("obj", {"types": ["T%d" % (i % 60), "System.Object"], "tostring": None, "props": [("id", ("I32", i))], "ms": [], "value": None}) for i in range(n)])
    if kind != "bags":
        for i in range(depth):
            spec = ("lst", UNTYPED_LISTS[0], [spec]) if i % 3 else ("obj", {"types": BAGS[1], "tostring": None, "props": [("k", spec)], "ms": [], "value": None})
    check_doc((spec, style, False, False))
    return Info(True, ["%s>=%d" % (kind, 100 if n >= 100 else 17)])


SUBS = [
    Sub("large", larges, check_large, quick=250, thorough=4000, tshards=2),
    Sub("documents", docs, check_doc, quick=1500, thorough=20000, qshards=6, tshards=8),
    Sub("shallow", shallow, check_doc, quick=1500, thorough=20000, qshards=2, tshards=4),
    Sub("structures", lambda: st.tuples(st.sampled_from(["coord", "size", "unknown"]), I32, I32, st.booleans()), check_struct, quick=300, thorough=3000, tshards=2),
]
