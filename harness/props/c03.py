"""C03: object graphs keep identity, type names and unique reference ids."""
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

import gens
import refclixml as rc
from core import Info, Sub, clip, fail, require, same
from pypsrp.complex_objects import ComplexObject, GenericComplexObject, ListMeta, ObjectMeta
from pypsrp.serializer import Serializer, TaggedValue

PROPERTY = "C03"
RULE = ("Graphs of property-bag objects: generated nodes whose adapted/extended properties, property sets and containers hold primitives, "
        "new nodes or nodes already placed (shared, cyclic), with type-name lists that share prefixes. Non-trivial: the graph has a "
        "shared or cyclic edge, or two objects whose type-name lists start alike but differ.")

TYPES = [["A", "System.Object"], ["A"], ["A", "B", "System.Object"], ["A", "B"], ["B", "System.Object"], ["System.Object"], [],
         ["System.Management.Automation.PSCustomObject", "System.Object"], ["Deserialized.A", "System.Object"],
         ["System.Object[]", "System.Array", "System.Object"], ["System.Object[]", "System.Object"], ["System.Collections.Hashtable", "X"],
         ["a", "System.Object"], ["A ", "System.Object"], [" A", "System.Object"], ["A", "A", "System.Object"], ["A,B", "System.Object"], ["A|B", "System.Object"],
         ["AB", "System.Object"], ["My.A_x0042_", "System.Object"], ["My.AB", "System.Object"], ["A<B>&'\"C", "System.Object"], ["A\nB", "System.Object"],
         ["A`1[[B, C]]", "System.Object"], ["", "System.Object"], ["A", "System.Object", "B", "System.Object"], ["B", "A", "System.Object"], ["A" * 300, "System.Object"]]


# node i: {"t": type index, "s": tostring, "a": {name: val}, "x": {name: val}, "sets": [val]}
# val: ("p", tag, v) | ("n", j) | ("l", [val]) | ("d", [(key, val)])
#  a ("n", j) directly in a property or set may name any node; inside a container only nodes with a higher index (no cycles
#  through containers), so that a container never leads back to an object that is still being written
def graphs():
    def of(n):
        prim = st.one_of(st.tuples(st.just("p"), st.just("S"), gens.text(8)), st.tuples(st.just("p"), st.just("I32"), st.integers(-5, 5)),
                         st.tuples(st.just("p"), st.just("B"), st.booleans()), st.just(("p", "Nil", None)))

        def node(i):
            direct = st.integers(0, n - 1).map(lambda j: ("n", j))
            opts = [prim, direct, direct, direct]
            if i + 1 < n:
                inner = st.one_of(prim, st.integers(i + 1, n - 1).map(lambda j: ("n", j)))
                opts.append(st.lists(inner, max_size=3).map(lambda v: ("l", v)))
                opts.append(st.lists(st.tuples(gens.ident(3), inner), max_size=2, unique_by=lambda kv: kv[0]).map(lambda v: ("d", v)))
            val = st.one_of(opts)
            names = st.one_of(gens.ident(3), gens.name(5), gens.text(5))
            return st.fixed_dictionaries({"t": st.integers(0, len(TYPES) - 1), "s": st.none() | gens.text(6), "a": st.dictionaries(names, val, max_size=3),
                                          "x": st.dictionaries(names, val, max_size=3), "sets": st.lists(val, max_size=2)})

        return st.tuples(*[node(i) for i in range(n)])

    return st.integers(1, 5).flatmap(of).filter(size_ok)


def size_ok(nodes):
    """containers may write a node again: bound the written size"""
    memo = {}

    def cost(i, stack):
        return 1

    seen = [0]

    def walk(i, started):
        seen[0] += 1
        if seen[0] > 200:
            return
        started.add(i)
        nd = nodes[i]
        for v in list(nd["sets"]) + list(nd["x"].values()) + list(nd["a"].values()):
            val(v, started, True)

    def val(v, started, direct):
        if seen[0] > 200:
            return
        if v[0] == "n":
            if not (direct and v[1] in started):
                walk(v[1], started)
        elif v[0] == "l":
            for x in v[1]:
                val(x, started, False)
        elif v[0] == "d":
            for _, x in v[1]:
                val(x, started, False)

    try:
        walk(0, set())
    except RecursionError:
        return False
    return seen[0] <= 200


def build(nodes):
    objs = [GenericComplexObject() for _ in nodes]

    def val(v):
        if v[0] == "p":
            return v[2]
        if v[0] == "n":
            return objs[v[1]]
        if v[0] == "l":
            return [val(x) for x in v[1]]
        return {k: val(x) for k, x in v[1]}

    for o, d in zip(objs, nodes):
        o.types = list(TYPES[d["t"]])
        o.to_string = d["s"]
        for k, v in d["a"].items():
            o.adapted_properties[k] = val(v)
        for k, v in d["x"].items():
            o.extended_properties[k] = val(v)
        o.property_sets = [val(v) for v in d["sets"]]
    return objs


ARR = ["System.Object[]", "System.Array", "System.Object"]


def compare(nodes, root):
    """walks the document in writing order against the graph"""
    placed = {}  # node index -> list of reader objects that stand for it
    stats = {"refs": 0, "nodes": 0}

    def node(i, ro, path, direct):
        require(isinstance(ro, rc.Obj), "%s: an object was written as %r", path, ro)
        if i in placed and any(ro is p for p in placed[i]):
            stats["refs"] += 1
            return
        if direct and i in placed:
            fail("%s: an object that was already written is not a reference to it", path)
        require(not any(ro is p for l in placed.values() for p in l), "%s: reference resolves to a different object", path)
        placed.setdefault(i, []).append(ro)
        stats["nodes"] += 1
        d = nodes[i]
        same(list(ro.types or []), TYPES[d["t"]], path + " type names")
        same(ro.tostring, d["s"], path + " ToString")
        require(ro.container is None, "%s: unexpected %s", path, ro.container)
        require(len(ro.sets) == len(d["sets"]), "%s: %d property sets, want %d", path, len(ro.sets), len(d["sets"]))
        for n, (v, r) in enumerate(zip(d["sets"], ro.sets)):
            val(v, r, "%s.set%d" % (path, n), True)
        for what, want, got in (("extended", d["x"], ro.ms), ("adapted", d["a"], ro.props)):
            got = got or []
            require(sorted(k for k, _ in got) == sorted(want), "%s: %s property names %s, want %s", path, what, clip([k for k, _ in got]), clip(sorted(want)))
            for k, r in got:
                val(want[k], r, "%s.%s" % (path, k), True)

    def val(v, r, path, direct):
        if v[0] == "p":
            require(isinstance(r, rc.Prim) and (r.tag, r.value) == (v[1], v[2]), "%s: %r written as %r", path, v, r)
        elif v[0] == "n":
            node(v[1], r, path, direct)
        elif v[0] == "l":
            require(isinstance(r, rc.Obj) and r.container == "LST" and r.types == ARR and len(r.items) == len(v[1]), "%s: list written as %r", path, r)
            for n, (x, y) in enumerate(zip(v[1], r.items)):
                val(x, y, "%s[%d]" % (path, n), False)
        else:
            require(isinstance(r, rc.Obj) and r.container == "DCT" and r.types == ["System.Collections.Hashtable", "System.Object"] and len(r.items) == len(v[1]), "%s: dict written as %r", path, r)
            for (k, x), (rk, y) in zip(v[1], r.items):
                same(rk.value, k, path + " key")
                val(x, y, "%s[%s]" % (path, k), False)

    node(0, root, "root", False)
    return stats


def labels(nodes):
    shared = cyc = False
    tl = {d["t"] for d in nodes}
    pre = any(TYPES[a] and TYPES[b] and TYPES[a] != TYPES[b] and TYPES[a][0] == TYPES[b][0] for a in tl for b in tl)
    seen = {}
    for i, d in enumerate(nodes):
        for v in list(d["a"].values()) + list(d["x"].values()) + list(d["sets"]):
            if v[0] == "n":
                seen[v[1]] = seen.get(v[1], 0) + 1
                if v[1] <= i:
                    cyc = True
    shared = any(c > 1 for c in seen.values())
    l = (["shared"] if shared else []) + (["cyclic"] if cyc else []) + (["type-prefix"] if pre else [])
    return l


def wire(el):
    return ET.tostring(el, encoding="utf-8", method="xml")


def check_graph(case):
    nodes = case
    objs = build(nodes)
    ser = Serializer()
    doc = wire(ser.serialize(objs[0]))
    st_ = compare(nodes, rc.read(doc))
    doc2 = wire(ser.serialize(objs[0]))
    require(doc2 == doc, "the second document of one serializer differs: %s then %s", clip(doc), clip(doc2))
    lab = labels(nodes)
    if st_["refs"]:
        lab.append("ref-written")
    return Info(bool(lab), lab)


# ----- graphs survive the product's own reader: identity after a round trip, for nodes without containers
def check_roundtrip(case):
    nodes = case
    objs = build(nodes)
    doc = wire(Serializer().serialize(objs[0]))
    root = Serializer().deserialize(doc.decode())
    placed = {}

    def node(i, o, path):
        require(type(o) is GenericComplexObject, "%s: object came back as %s", path, clip(o))
        if i in placed:
            require(o is placed[i], "%s: one shared object came back as two", path)
            return
        require(all(o is not p for p in placed.values()), "%s: two objects came back as one", path)
        placed[i] = o
        d = nodes[i]
        same(list(o.types), TYPES[d["t"]], path + " type names")
        same(o.to_string, d["s"], path + " ToString")
        require(len(o.property_sets) == len(d["sets"]), path + " property sets")
        for n, v in enumerate(d["sets"]):
            val(v, o.property_sets[n], "%s.set%d" % (path, n))
        for attr, want in (("extended_properties", d["x"]), ("adapted_properties", d["a"])):
            g = getattr(o, attr)
            require(sorted(g) == sorted(want), "%s: %s names %s, want %s", path, attr, clip(sorted(g)), clip(sorted(want)))
            for k in sorted(want):
                val(want[k], g[k], "%s.%s" % (path, k))

    def val(v, got, path):
        if v[0] == "p":
            same(got, v[2], path)
        else:
            node(v[1], got, path)

    node(0, root, "root")
    lab = labels(nodes)
    return Info(bool(lab), lab)


GENERIC = [i for i, t in enumerate(TYPES) if (t and t[-1] == "System.Object" and not t[0].startswith("System.Object[") and not t[0].startswith("System.Coll")) or not t]


def bag_graphs():
    def of(n):
        val = st.one_of(st.tuples(st.just("p"), st.just("S"), gens.text(8)), st.tuples(st.just("p"), st.just("I32"), st.integers(-5, 5)),
                        st.integers(0, n - 1).map(lambda j: ("n", j)), st.integers(0, n - 1).map(lambda j: ("n", j)))
        names = st.one_of(gens.ident(3), gens.text(5))
        node = st.fixed_dictionaries({"t": st.sampled_from(GENERIC), "s": st.none() | gens.text(6), "a": st.dictionaries(names, val, max_size=3),
                                      "x": st.dictionaries(names, val, max_size=3), "sets": st.lists(val, max_size=2)})
        return st.tuples(*[node] * n)

    return st.integers(1, 5).flatmap(of)


# ----- objects with declared (static) properties
class Declared(ComplexObject):
    def __init__(self, types, tostr, ad, ex, sets, values):
        super().__init__()
        self._types = types
        self._to_string = tostr
        self._adapted_properties = tuple(ad)
        self._extended_properties = tuple(ex)
        self._property_sets = tuple(sets)
        for k, v in values.items():
            setattr(self, k, v)


def declared():
    prop = st.tuples(gens.ident(6), st.sampled_from(["shared0", "shared1", "int", "str", "none", "opt", "list", "same-list"]))
    one = st.fixed_dictionaries({"t": st.integers(0, len(TYPES) - 1), "s": st.none() | gens.text(6),
                                 "p": st.lists(st.tuples(st.sampled_from("axp"), gens.ident(5), st.sampled_from(["g0", "g1", "g0", "g1", "int", "str", "nil", "opt", "list"])), max_size=6,
                                               unique_by=lambda p: p[1])})
    return st.tuples(st.lists(one, min_size=1, max_size=4), st.integers(0, len(TYPES) - 1), st.booleans())


def check_declared(case):
    """a list of declared objects, the way commands and parameters are sent, whose properties share property bags"""
    specs, gt, cyc = case
    g = []
    for n in range(2):
        o = GenericComplexObject()
        o.types = list(TYPES[gt])
        o.extended_properties["id"] = n
        g.append(o)
    if cyc:
        g[0].adapted_properties["other"] = g[1]
    vals = {"g0": g[0], "g1": g[1], "int": 7, "str": "_x0041_", "nil": None, "opt": None, "list": [1, "a"]}
    objs = []
    for s in specs:
        groups = {"a": [], "x": [], "p": []}
        values = {}
        for n, (grp, name, kind) in enumerate(s["p"]):
            attr = "attr%d" % n
            values[attr] = vals[kind]
            meta = ListMeta(name=name) if kind == "list" else ObjectMeta(name=name, optional=kind == "opt")
            groups[grp].append((attr, meta))
        objs.append(Declared(list(TYPES[s["t"]]), s["s"], groups["a"], groups["x"], groups["p"], values))
    ser = Serializer()
    doc = wire(ser.serialize(objs))
    root = rc.read(doc)
    same(root.types, ARR, "list type names")
    require(root.container == "LST" and len(root.items) == len(objs), "list of %d objects has %r", len(objs), root.items)
    placed = {}
    refs = 0
    for s, ro in zip(specs, root.items):
        same(list(ro.types or []), TYPES[s["t"]], "type names")
        same(ro.tostring, s["s"], "ToString")
        for grp, got in (("p", ro.sets), ("x", ro.ms or []), ("a", ro.props or [])):
            want = [(name, kind) for g_, name, kind in s["p"] if g_ == grp and kind != "opt"]
            require(len(want) == len(got), "%d properties written for %r in %s", len(got), want, clip(doc))
            for (name, kind), r in zip(want, got):
                if grp != "p":
                    same(r[0], name, "name of property of kind %s in %s" % (kind, clip(doc)))
                    r = r[1]
                if kind in ("g0", "g1"):
                    n = int(kind[1])
                    require(isinstance(r, rc.Obj), "object written as %r", r)
                    if n in placed:
                        refs += 1
                        require(r is placed[n], "a repeated object is not a reference to its first occurrence in %s", clip(doc))
                    else:
                        require(r not in placed.values(), "reference resolves to a different object")
                        placed[n] = r
                        same(list(r.types or []), TYPES[gt], "shared object type names")
                        same(r.prop("id").value, n, "shared object id")
                        if cyc and n == 0:
                            o = r.prop("other")
                            if 1 in placed:
                                require(o is placed[1], "nested shared object")
                            else:
                                placed[1] = o
                elif kind == "list":
                    same([(i.tag, i.value) for i in r.items], [("I32", 1), ("S", "a")], "list property")
                else:
                    same((r.tag, r.value), {"int": ("I32", 7), "str": ("S", "_x0041_"), "nil": ("Nil", None)}[kind], "property")
    # names are attached to references too: check the raw document, for property sets as well
    el = rc.parse_xml(doc)
    for o in el.find("LST"):
        i = [c for c in o if c.tag not in ("TN", "TNRef", "ToString", "MS", "Props")]
        s = specs[list(el.find("LST")).index(o)]
        want = [name for g_, name, kind in s["p"] if g_ == "p" and kind != "opt"]
        require([c.attrib.get("N") for c in i] == want, "names of property-set elements in %s", clip(doc))
    return Info(refs > 0, ["ref" if refs else "no-ref", "cyc" if cyc else "flat"])


# ----- many objects, references across a long distance
def wides():
    return st.tuples(st.integers(6, 90), st.sampled_from(["flat", "chain", "tree"]), st.lists(st.tuples(st.integers(0, 89), st.integers(0, 89)), min_size=2, max_size=25),
                     st.integers(0, len(TYPES) - 1), st.integers(1, len(TYPES)), st.booleans())


def check_wide(case):
    n, shape, links, t0, step, roundtrip = case
    if roundtrip:
        ts = [GENERIC[(t0 + i * step) % len(GENERIC)] for i in range(n)]
    else:
        ts = [(t0 + i * step) % len(TYPES) for i in range(n)]
    nodes = [{"t": ts[i], "s": None, "a": {}, "x": {}, "sets": []} for i in range(n)]
    for i in range(1, n):
        parent = 0 if shape == "flat" else max(0, i - 1) if shape == "chain" and i % 30 else i // 3
        nodes[parent]["a" if i % 2 else "x"]["p%03d" % i] = ("n", i)
    for k, (a, b) in enumerate(links):
        nodes[a % n]["x"]["z%02d" % k] = ("n", b % n)
        if k % 3 == 0:
            nodes[b % n]["sets"].append(("n", a % n))
    return (check_roundtrip if roundtrip else check_graph)(nodes)


# ----- values that were serialized on their own, as pool.serialize() returns them, next to other objects
def embeds():
    return st.tuples(st.lists(graphs(), min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["own", "bag", "list", "live"])), min_size=1, max_size=5))


def check_embedded(case):
    gs, uses = case
    els = [Serializer().serialize(build(g)[0]) for g in gs]
    before = [wire(e) for e in els]
    top, live = [], set()
    for k, how in uses:
        k %= len(gs)
        if how == "live" and k in live:
            how = "own"
        if how == "live":
            live.add(k)
            top.append(build(gs[k])[0])
        elif how == "own":
            top.append(els[k])
        elif how == "list":
            top.append([els[k], 1, els[k]])
        else:
            b = GenericComplexObject()
            b.types = ["A", "System.Object"]
            b.extended_properties["v"] = els[k]
            top.append(b)
    root = rc.read(wire(Serializer().serialize(top)))
    same(len(root.items), len(top), "elements of the list")
    refs = 0
    for (k, how), r in zip(uses, root.items):
        g = gs[k % len(gs)]
        for x in [r.items[0], r.items[2]] if getattr(r, "items", None) and how == "list" else [r.prop("v")] if how == "bag" else [r]:
            refs += compare(g, x)["refs"]
    same([wire(e) for e in els], before, "the elements the caller holds")
    lab = (["several"] if len(uses) > 1 else []) + (["ref"] if refs else [])
    return Info(len(lab) == 2, lab)


SUBS = [
    Sub("embedded", embeds, check_embedded, quick=400, thorough=10000, tshards=4),
    Sub("wide", wides, check_wide, quick=250, thorough=6000, tshards=4),
    Sub("graphs", graphs, check_graph, quick=500, thorough=20000, qshards=4, tshards=8),
    Sub("roundtrip", bag_graphs, check_roundtrip, quick=700, thorough=30000, qshards=2, tshards=8),
    Sub("declared", declared, check_declared, quick=1500, thorough=30000, qshards=1, tshards=4),
]
