"""C31: protocol objects keep every documented field in both directions."""
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
from core import Info, Sub, clip, require, same
from pypsrp import complex_objects as co
from pypsrp.complex_objects import ListMeta, ObjectMeta
from pypsrp.serializer import Serializer

PROPERTY = "C31"
RULE = ("objects: documents of one to five protocol objects of the classes of [MS-PSRP] 2.2.3 with generated fields (each possibly null), written by the client and read by a reference reader, written by a reference "
        "writer (order of members, members the client does not know and type names varied) and read by the client, and both in turn. enums: every value and flag combination by number, constant and text. arrays: "
        "rectangular arrays of one to four dimensions, possibly empty, both ways. Non-trivial: an object with a field that is not null (objects), a combination of flags or a non-zero value (enums), more than one "
        "dimension or element (arrays). pipelines: definitions of one to three statements, written by the client or the reference writer, read and written again. Non-trivial: two commands.")

M = "System.Management.Automation."
VT = ["System.ValueType", "System.Object"]
EN = ["System.Enum"] + VT


def bits(pairs, all_=None):
    def f(v):
        if all_ and v == all_[1]:
            return all_[0]
        return ", ".join(n for n, b in pairs if v & b)
    f.values = [b for _, b in pairs] + ([all_[1]] if all_ else [])
    f.mask = sum(b for _, b in pairs)
    f.names = dict(pairs)
    if all_:
        f.names[all_[0]] = all_[1]
    return f


def listed(names, first=0):
    m = {first + i: n for i, n in enumerate(names)}
    m.pop(None, None)

    def f(v):
        return m[v]
    f.values = sorted(m)
    f.mask = None
    f.names = {n: v for v, n in m.items()}
    return f


METHODS = ("GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication ReadLine ReadLineAsSecureString "
           "Write1 Write2 WriteLine1 WriteLine2 WriteLine3 WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine Prompt PromptForCredential1 PromptForCredential2 PromptForChoice "
           "GetForegroundColor SetForegroundColor GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition GetWindowPosition SetWindowPosition GetCursorSize SetCursorSize GetBufferSize "
           "SetBufferSize GetWindowSize SetWindowSize GetWindowTitle SetWindowTitle GetMaxWindowSize GetMaxPhysicalWindowSize GetKeyAvailable ReadKey FlushInputBuffer SetBufferContents1 SetBufferContents2 "
           "GetBufferContents ScrollBufferContents PushRunspace PopRunspace GetIsRunspacePushed GetRunspace PromptForChoiceMultipleSelection").split()
# class: (type name, text of a value)
ENUMS = {
    "Color": ("System.ConsoleColor", listed("Black DarkBlue DarkGreen DarkCyan DarkRed DarkMagenta DarkYellow Gray DarkGray Blue Green Cyan Red Magenta Yellow White".split())),
    "PSThreadOptions": (M + "Runspaces.PSThreadOptions", listed(["Default", "UseNewThread", "ReuseThread", "UseCurrentThread"])),
    "ApartmentState": (M + "Runspaces.ApartmentState", listed(["STA", "MTA", "UNKNOWN"])),
    "RemoteStreamOptions": (M + "Runspaces.RemoteStreamOptions", bits([("AddInvocationInfoToErrorRecord", 1), ("AddInvocationInfoToWarningRecord", 2), ("AddInvocationInfoToDebugRecord", 4),
                                                                      ("AddInvocationInfoToVerboseRecord", 8)], ("AddInvocationInfo", 15))),
    "HostMethodIdentifier": (M + "Remoting.RemoteHostMethodId", listed(METHODS, 1)),
    "CommandType": (M + "CommandTypes", bits([("Alias", 1), ("Function", 2), ("Filter", 4), ("Cmdlet", 8), ("ExternalScript", 16), ("Application", 32), ("Script", 64), ("Workflow", 128), ("Configuration", 256)], ("All", 511))),
    "CommandOrigin": (M + "CommandOrigin", listed(["Runspace", "Internal"])),
    "PipelineResultTypes": (M + "Runspaces.PipelineResultTypes", listed(["None", "Output", "Error", "Warning", "Verbose", "Debug", "Information", "All", "Null"])),
    "ProgressRecordType": (M + "ProgressRecordType", listed(["Processing", "Completed"])),
    "SessionStateEntryVisibility": (M + "SessionStateEntryVisibility", listed(["Public", "Private"])),
}
CONSTANTS = {"ControlKeyState": dict(RightAltPressed=1, LeftAltPressed=2, RightCtrlPressed=4, LeftCtrlPressed=8, ShiftPressed=16, NumLockOn=32, ScrollLockOn=64, CapsLockOn=128, EnhancedKey=256),
             "BufferCellType": dict(COMPLETE=0, LEADING=1, TRAILING=2),
             "RunspacePoolState": dict(BEFORE_OPEN=0, OPENING=1, OPENED=2, CLOSED=3, CLOSING=4, BROKEN=5, NEGOTIATION_SENT=6, NEGOTIATION_SUCCEEDED=7, CONNECTING=8, DISCONNECTED=9),
             "PSInvocationState": dict(NOT_STARTED=0, RUNNING=1, STOPPING=2, STOPPED=3, COMPLETED=4, FAILED=5, DISCONNECTED=6)}
LISTS = {"aliases": ["System.Collections.ObjectModel.Collection`1[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object"],
         "output_type": ["System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Management.Automation.PSTypeName, System.Management.Automation, Version=3.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]"]}

# class: (where the members are, types, client writes it, [(field, member, kind, may be missing)])
SPEC = {
    "Coordinates": ("props", [M + "Host.Coordinates"] + VT, True, [("x", "X", "I32"), ("y", "Y", "I32")]),
    "Size": ("props", [M + "Host.Size"] + VT, True, [("width", "Width", "I32"), ("height", "Height", "I32")]),
    "CommandParameter": ("ms", None, True, [("name", "N", "S"), ("value", "V", "any")]),
    "KeyInfo": ("ms", None, True, [("code", "virtualKeyCode", "I32", True), ("character", "character", "C"), ("state", "controlKeyState", "I32"), ("key_down", "keyDown", "B")]),
    "KeyInfoDotNet": ("props", [M + "Host.KeyInfo"] + VT, True, [("code", "VirtualKeyCode", "I32"), ("character", "Character", "C"), ("state", "ControlKeyState", "S"), ("key_down", "KeyDown", "B")]),
    "BufferCell": ("props", None, True, [("character", "character", "C"), ("foreground_color", "foregroundColor", "Color"), ("background_color", "backgroundColor", "Color"), ("cell_type", "bufferCellType", "I32")]),
    "CultureInfo": ("props", None, True, [("lcid", "LCID", "I32"), ("name", "Name", "S"), ("display_name", "DisplayName", "S"), ("ietf_language_tag", "IetfLanguageTag", "S"),
                                          ("three_letter_iso_name", "ThreeLetterISOLanguageName", "S"), ("three_letter_windows_name", "ThreeLetterWindowsLanguageName", "S"),
                                          ("two_letter_iso_language_name", "TwoLetterISOLanguageName", "S")]),
    "ParameterMetadata": ("props", [M + "ParameterMetadata", "System.Object"], True, [("name", "Name", "S"), ("parameter_type", "ParameterType", "S"), ("aliases", "Aliases", "strings"),
                                                                                      ("switch_parameter", "SwitchParameter", "B"), ("dynamic", "IsDynamic", "B")]),
    "CommandMetadataCount": ("ms", ["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", M + "PSCustomObject", "System.Object"], True, [("count", "Count", "I32")]),
    "CommandMetadata": ("ms", [M + "PSCustomObject", "System.Object"], True, [("name", "Name", "S"), ("namespace", "Namespace", "S"), ("help_uri", "HelpUri", "S"), ("command_type", "CommandType", "CommandType"),
                                                                             ("output_type", "OutputType", "strings"), ("parameters", "Parameters", "parameters")]),
}
i32 = gens.choose(st.integers(-3, 70), st.integers(-2**31, 2**31 - 1), st.sampled_from([-2**31, 2**31 - 1, 0]))
char = st.one_of(st.characters(max_codepoint=0xFFFF, blacklist_categories=["Cs"]), st.sampled_from("aZ09 \t\r\n\0\x1b<&\xe9\u20ac\ufffe\uffff"))
any_ = st.one_of(gens.text(8).map(lambda v: ("S", v)), i32.map(lambda v: ("I32", v)), st.booleans().map(lambda v: ("B", v)), st.lists(gens.text(5), max_size=3).map(lambda v: ("lst", v)))


def enum_value(name):
    f = ENUMS[name][1]
    if f.mask is None:
        return st.sampled_from(f.values)
    return st.one_of(st.sampled_from(f.values), st.integers(1, f.mask))


def field(kind):
    if kind in ENUMS:
        return enum_value(kind)
    if kind == "parameters":
        return st.lists(st.tuples(gens.text(6), fields("ParameterMetadata")), max_size=3, unique_by=lambda p: p[0])
    return {"I32": i32, "S": gens.text(10), "B": st.booleans(), "C": char, "any": any_, "strings": st.lists(gens.text(8), max_size=3)}[kind]


def fields(name):
    return st.fixed_dictionaries({f[0]: st.one_of(field(f[2]), field(f[2]), field(f[2]), field(f[2]), st.none()) for f in SPEC[name][3]})


one = st.sampled_from(sorted(SPEC)).flatmap(lambda n: st.tuples(st.just(n), st.lists(fields(n), min_size=1, max_size=5)))
cases = st.fixed_dictionaries({"objects": one, "order": st.randoms(use_true_random=False).map(lambda r: [r.random() for _ in range(24)]), "extra": st.booleans(), "types": st.sampled_from(["plain", "plain", "none", "Deserialized."]),
                               "tostring": st.none() | gens.text(8), "missing": st.booleans(), "first": st.integers(0, 5),
                               "made": st.sampled_from(["arguments", "only those set", "attributes"])})


def build(name, v, made="arguments"):
    """The Python object a caller makes: all arguments given, only those that are set, or the attributes set afterwards."""
    kw = {}
    for f, _, kind, *_ in SPEC[name][3]:
        x = v[f]
        if x is not None:
            if kind in ENUMS:
                x = getattr(co, kind)(value=x)
            elif kind == "any":
                x = list(x[1]) if x[0] == "lst" else x[1]
            elif kind == "strings":
                x = list(x)
            elif kind == "parameters":
                x = {k: build("ParameterMetadata", p, made) for k, p in x}
        if x is not None or made == "arguments":
            kw[f] = x
    if made != "attributes":
        return getattr(co, name)(**kw)
    o = getattr(co, name)()
    for f, x in kw.items():
        setattr(o, f, x)
    return o


def spec_of(name, v, case, top=True):
    """The same object for the reference writer."""
    where, types, _, fs = SPEC[name]
    ms = []
    for f, member, kind, *opt in fs:
        x = v[f]
        if x is None:
            if opt and case["missing"]:
                continue
            s = ("Nil",)
        elif kind in ENUMS:
            s = ("enum", [ENUMS[kind][0]] + EN, ENUMS[kind][1](x), x)
        elif kind == "any":
            s = ("lst", ["System.Object[]", "System.Array", "System.Object"], [("S", i) for i in x[1]]) if x[0] == "lst" else x
        elif kind == "strings":
            s = ("lst", LISTS[f], [("S", i) for i in x])
        elif kind == "parameters":
            s = ("dct", ["System.Collections.Generic.Dictionary`2[[System.String],[System.Object]]", "System.Object"], [(("S", k), spec_of("ParameterMetadata", p, case, False)) for k, p in x])
        else:
            s = (kind, x)
        ms.append((member, s))
    if case["extra"]:
        # members of a later version, named like the client's own in the other group
        ms += [("Another", ("S", "x")), ("PSComputerName", ("S", "h"))]
    ms = [m for _, m in sorted(zip(case["order"], ms))] if case["extra"] else ms
    d = {where: ms, "tostring": case["tostring"] if top else None}
    if case["extra"]:
        d["ms" if where == "props" else "props"] = [(fs[0][1], ("S", "not this")), ("More", ("I32", 1))]
    if types and (case["types"] != "none" or not top):
        d["types"] = [t if case["types"] in ("plain", "none") else case["types"] + t for t in types]
    return ("obj", d)


def written(name, v, node, what):
    """The reference reader's node must hold the fields."""
    where, types, _, fs = SPEC[name]
    if name not in ("CommandMetadataCount", "CommandMetadata", "ParameterMetadata"):  # only ever sent by servers: their type names are not the client's to write
        same(list(node.types or []), types or [], "type names of %s" % what)
    got = dict(getattr(node, where))
    same(len(getattr(node, where)), len(got), "members of %s" % what)
    same(set(got), {f[1] for f in fs if not (len(f) > 3 and v[f[0]] is None)} | (set(got) & {f[1] for f in fs if len(f) > 3}), "names of the members of %s" % what)
    same(getattr(node, "ms" if where == "props" else "props") or [], [], "other members of %s" % what)
    for f, member, kind, *opt in fs:
        x = v[f]
        w = "%s of %s" % (member, what)
        if member not in got:
            continue
        g = got[member]
        if x is None:
            same(rc.plain(g)[0] if isinstance(g, rc.Prim) else g, "Nil", w)
        elif kind in ENUMS:
            enum_node(kind, x, g, w)
        elif kind == "any":
            if x[0] == "lst":
                same([i.value for i in g.items], list(x[1]), w)
            else:
                same((g.tag, g.value), x, w)
        elif kind == "strings":
            same((g.container, list(g.types)[:1], [i.value for i in g.items]), ("LST", LISTS[f][:1], list(x)), w)
        elif kind == "parameters":
            same([(k.tag, k.value) for k, _ in g.items], [("S", k) for k, _ in x], "names in %s" % w)
            for (k, p), (_, n) in zip(x, g.items):
                written("ParameterMetadata", p, n, "%s in %s" % (clip(k), w))
        elif kind == "C":
            same((g.tag, g.value), ("C", x), w)
        else:
            same((g.tag, g.value), (kind, x), w)


def enum_node(kind, x, g, w):
    same(list(g.types), [ENUMS[kind][0]] + EN, "type names of %s" % w)
    same([(i.tag, i.value) for i in g.sets], [("I32", x)], "value of %s" % w)
    same(g.tostring, ENUMS[kind][1](x), "text of %s" % w)


def compare(name, v, o, what, nested=True):
    require(type(o) is getattr(co, name), "%s is a %r", what, type(o))
    for f, member, kind, *opt in SPEC[name][3]:
        x, g = v[f], getattr(o, f)
        w = "%s of %s" % (f, what)
        if x is None:
            same(g, None, w)
        elif kind in ENUMS:
            require(type(g) is getattr(co, kind), "%s is a %r", w, type(g))
            same(g.value, x, w)
            same(str(g), ENUMS[kind][1](x), "text of %s" % w)
        elif kind == "any":
            same(g, list(x[1]) if x[0] == "lst" else x[1], w)
            same(type(g), list if x[0] == "lst" else type(x[1]), "type of %s" % w)
        elif kind == "strings":
            same(g, list(x), w)
        elif kind == "parameters":
            same(sorted(g), sorted(k for k, _ in x), "names in %s" % w)
            for k, p in x if nested else ():
                compare("ParameterMetadata", p, g[k], "%s in %s" % (clip(k), w))
        else:
            same((type(g), g), (type(x), x), w)


TYPES = ["System.Object[]", "System.Array", "System.Object"]


def check_objects(case):
    name, vs = case["objects"]
    cls = getattr(co, name)
    ser = Serializer()
    meta = lambda: ListMeta(list_value_meta=ObjectMeta("Obj", object=cls))
    text = rc.write(("lst", TYPES, [spec_of(name, v, case) for v in vs]), first_ref=case["first"])
    got = ser.deserialize(text, meta())
    same(len(got), len(vs), "objects read")
    for v, o in zip(vs, got):
        compare(name, v, o, "the %s the server sent" % name)
        if case["tostring"] is not None:
            same(str(o), case["tostring"], "text of the %s the server sent" % name)
    alone = ser.deserialize(rc.write(spec_of(name, vs[0], case)), ObjectMeta("Obj", object=cls))
    compare(name, vs[0], alone, "a single %s" % name)
    if SPEC[name][2]:
        objs = [build(name, v, case["made"]) for v in vs]
        for again in range(2):
            xml = ET.tostring(ser.serialize(list(objs), meta()), encoding="unicode")
            node = rc.read(xml)
            same(len(node.items), len(vs), "objects written")
            for v, n in zip(vs, node.items):
                written(name, v, n, "the %s" % name)
            back = ser.deserialize(xml, meta())
            for v, o in zip(vs, back):
                compare(name, v, o, "the %s after a round trip" % name, nested=False)  # the client writes no type names for them
        # what was read from the server can be sent on
        xml = ET.tostring(ser.serialize(got, meta()), encoding="unicode")
        for v, n in zip(vs, rc.read(xml).items):
            written(name, v, n, "the %s sent on" % name)
    return Info(any(x is not None for v in vs for x in v.values()), [name] + (["null field"] if any(x is None for v in vs for x in v.values()) else []))


# ---------------------------------------------------------------- enums and flags
enum_cases = st.sampled_from(sorted(ENUMS)).flatmap(lambda n: st.fixed_dictionaries({"cls": st.just(n), "values": st.lists(enum_value(n), min_size=1, max_size=4), "typed": st.booleans()}))


def constant(name):
    """PROMPT_FOR_CHOICE -> promptforchoice"""
    return name.replace("_", "").lower()


def check_enums(case):
    name = case["cls"]
    tname, f = ENUMS[name]
    cls = getattr(co, name)
    ser = Serializer()
    for c, v in vars(cls).items():
        if c.isupper():
            want = {constant(n): x for n, x in f.names.items()}
            same(v, want.get(constant(c), "no such value"), "constant %s of %s" % (c, name))
    for c, vals in CONSTANTS.items():
        for k, v in vals.items():
            same(getattr(getattr(co, c), k), v, "%s.%s" % (c, k))
    objs = [cls(value=v) for v in case["values"]]
    for o, v in zip(objs, case["values"]):
        same(o.value, v, "value of a %s" % name)
        same(str(o), f(v), "text of %s %d" % (name, v))
        n = rc.read(ET.tostring(ser.serialize(o), encoding="unicode"))
        enum_node(name, v, n, "%s %d" % (name, v))
        doc = rc.write(("enum", [tname] + EN, f(v), v))
        b = ser.deserialize(doc, ObjectMeta("Obj", object=cls))
        same((type(b), b.value, str(b)), (cls, v, f(v)), "a %s the server sent" % name)
    o = objs[0]
    for v in case["values"]:
        o.value = v
        same(str(o), f(v), "text of a %s that was set to %d" % (name, v))
        enum_node(name, v, rc.read(ET.tostring(ser.serialize(o), encoding="unicode")), "a %s that was set to %d" % (name, v))
    return Info(any(case["values"]), [name])


# ---------------------------------------------------------------- arrays
def shapes():
    return gens.choose(st.lists(st.integers(1, 4), min_size=1, max_size=4), st.lists(st.integers(1, 3), min_size=1, max_size=4), st.lists(st.integers(0, 2), min_size=1, max_size=3))


array_cases = st.fixed_dictionaries({"shape": shapes(), "kind": st.sampled_from(["I32", "S", "mixed", "cell"]), "seed": st.integers(0, 1000), "reads": st.integers(0, 3)})


def elements(case):
    n = 1
    for d in case["shape"]:
        n *= d
    out = []
    for i in range(n):
        k = case["kind"]
        if k == "mixed":
            k = ["I32", "S", "Nil", "B"][(i * 7 + case["seed"]) % 4]
        out.append({"I32": ("I32", i + case["seed"]), "S": ("S", "e%d" % i), "Nil": ("Nil",), "B": ("B", i % 2 == 0), "cell": ("cell", i % 16)}[k])
    return out


def value(e):
    if e[0] == "Nil":
        return None
    if e[0] == "cell":
        return co.BufferCell(character=chr(65 + e[1]), foreground_color=co.Color(value=e[1]), background_color=co.Color(value=0), cell_type=0)
    return e[1]


def nest(shape, flat):
    if len(shape) == 1:
        return list(flat)
    step = len(flat) // shape[0] if shape[0] else 0
    return [nest(shape[1:], flat[i * step:(i + 1) * step]) for i in range(shape[0])]


def eq(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, co.BufferCell):
        # read without knowing what the elements are: a bag of members
        g = lambda x, f, n: getattr(x, f) if isinstance(x, co.BufferCell) else x.adapted_properties[n]
        return g(a, "character", "character") == b.character and g(a, "foreground_color", "foregroundColor").value == b.foreground_color.value and g(a, "cell_type", "bufferCellType") == b.cell_type
    return type(a) is type(b) and a == b


def cell_spec(i):
    c = lambda v: ("enum", ["System.ConsoleColor"] + EN, ENUMS["Color"][1](v), v)
    return ("obj", {"props": [("character", ("C", chr(65 + i))), ("foregroundColor", c(i)), ("backgroundColor", c(0)), ("bufferCellType", ("I32", 0))]})


def check_arrays(case):
    shape, flat = list(case["shape"]), elements(case)
    ser = Serializer()
    spec = ("obj", {"ms": [("mae", ("lst", TYPES, [cell_spec(e[1]) if e[0] == "cell" else e for e in flat])), ("mal", ("lst", TYPES, [("I32", d) for d in shape]))]})
    want = nest(shape, [value(e) for e in flat])
    if 0 in shape:
        shape = shape[:shape.index(0) + 1]  # what is below an empty dimension cannot be told from lists
    a = ser.deserialize(rc.write(spec), ObjectMeta("Obj", object=co.Array))
    for i in range(case["reads"]):
        require(eq(a.array, want), "an array of %s is read as %s", case["shape"], clip(a.array))
    for o, what in ((co.Array(array=nest(case["shape"], [value(e) for e in flat])), "an array"), (a, "an array that was read")):
        for i in range(max(1, case["reads"])):
            n = rc.read(ET.tostring(ser.serialize(o), encoding="unicode"))
            ms = dict(n.ms)
            same(set(ms), {"mae", "mal"}, "members of %s" % what)
            same([(x.tag, x.value) for x in ms["mal"].items], [("I32", d) for d in shape], "dimensions of %s" % what)
            same(len(ms["mae"].items), len(flat), "elements of %s" % what)
            for e, x in zip(flat, ms["mae"].items):
                if e[0] == "cell":
                    same((dict(x.props)["character"].value, dict(x.props)["foregroundColor"].sets[0].value), (chr(65 + e[1]), e[1]), "element of %s" % what)
                else:
                    same((x.tag, x.value), (e[0], e[1] if len(e) > 1 else None), "element of %s" % what)
            require(eq(o.array, want), "%s of %s has become %s", what, case["shape"], clip(o.array))
    back = ser.deserialize(ET.tostring(ser.serialize(co.Array(array=want)), encoding="unicode"), ObjectMeta("Obj", object=co.Array))
    require(eq(back.array, want), "an array of %s comes back as %s", case["shape"], clip(back.array))
    o = co.Array(array=[1])
    o.array = want
    require(eq(o.array, want), "an array that was replaced is %s", clip(o.array))
    same([x.value for x in dict(rc.read(ET.tostring(ser.serialize(o), encoding="unicode")).ms)["mal"].items], shape, "dimensions of an array that was replaced")
    return Info(len(flat) > 1, ["empty" if 0 in shape else "%d-D" % len(shape)])


# ----- pipelines: the statements, commands and arguments of a definition, read and written
small = gens.choose(st.tuples(st.just("S"), gens.text(8)), st.tuples(st.just("I32"), st.integers(-5, 5)), st.just(("Nil",)), st.tuples(st.just("B"), st.booleans()),
                    st.tuples(st.just("lst"), st.just(["System.Object[]", "System.Array", "System.Object"]), st.lists(st.tuples(st.just("I32"), st.integers(0, 9)), max_size=2)))
pcmd = st.fixed_dictionaries({"cmd": gens.text(8), "script": st.booleans(), "local": st.sampled_from([None, True, False]), "merge": st.dictionaries(st.sampled_from(["my_result", "to_result", "previous", "error", "warning", "verbose", "debug", "information"]), st.sampled_from([1, 2, 7, 8]), max_size=3),
                              "args": st.lists(st.tuples(st.none() | gens.ident(4), small), max_size=3)})
pipe_cases = st.fixed_dictionaries({"statements": st.lists(st.lists(pcmd, min_size=1, max_size=3), min_size=1, max_size=3), "nested": st.booleans(), "history": st.none() | gens.text(6), "redirect": st.booleans(), "last": st.booleans(), "proto": st.sampled_from(["2.1", "2.2", "2.3"]), "how": st.sampled_from(["client", "client", "server"])})
RES = {0: "None", 1: "Output", 2: "Error", 7: "All", 8: "Null"}
PS_LIST = ["System.Collections.Generic.List`1[[System.Management.Automation.PSObject, System.Management.Automation, Version=1.0.0.0, Culture=neutral, PublicKeyToken=31bf3856ad364e35]]", "System.Object"]


def plainly(v):
    return None if v[0] == "Nil" else [x[1] for x in v[2]] if v[0] == "lst" else v[1]


def check_pipelines(case):
    minor = int(case["proto"][2:])
    merges = ["my_result", "to_result", "previous"] + ["error", "warning", "verbose", "debug"] * (minor >= 2) + ["information"] * (minor >= 3)
    member = {m: "Merge" + "".join(x.capitalize() for x in m.split("_")) + ("Results" if m == "previous" else "") for m in merges}
    sts = case["statements"]

    def cmd_spec(c):
        enum = lambda v: ("enum", [M + "Runspaces.PipelineResultTypes"] + EN, RES[v], v)
        return psrp.obj([("Cmd", ("S", c["cmd"])), ("IsScript", ("B", c["script"])), ("UseLocalScope", ("Nil",) if c["local"] is None else ("B", c["local"]))] + [(member[m], enum(c["merge"].get(m, 0))) for m in merges]
                        + [("Args", ("lst", PS_LIST, [psrp.obj([("N", ("Nil",) if n is None else ("S", n)), ("V", v)]) for n, v in c["args"]]))])

    def doc():
        ms = [("IsNested", ("B", case["nested"]))]
        if len(sts) > 1:
            ms.append(("ExtraCmds", ("lst", PS_LIST, [psrp.obj([("Cmds", ("lst", PS_LIST, [cmd_spec(c) for c in s]))]) for s in sts])))
        else:
            ms.append(("ExtraCmds", ("Nil",)))
        ms += [("Cmds", ("lst", PS_LIST, [cmd_spec(c) for c in sts[0]])), ("History", ("Nil",) if case["history"] is None else ("S", case["history"])), ("RedirectShellErrorOutputPipe", ("B", case["redirect"]))]
        return rc.write(psrp.obj(ms))

    def view(p):
        return (p.is_nested, p.history, p.redirect_err_to_out, [(c.cmd, c.is_script, c.use_local_scope, [(a.name, a.value) for a in c.args], [getattr(c, "merge_" + m).value for m in merges]) for c in p.commands])

    ser = Serializer()
    meta = lambda: ObjectMeta("Obj", object=co.Pipeline)
    if case["how"] == "client":
        cmds = []
        for s in sts:
            for c in s:
                kw = {"merge_" + m: co.PipelineResultTypes(value=v) for m, v in c["merge"].items()}
                cmds.append(co.Command(c["cmd"], protocol_version=case["proto"], is_script=c["script"], use_local_scope=c["local"], args=[co.CommandParameter(name=n, value=plainly(v)) for n, v in c["args"]], **kw))
            cmds[-1].end_of_statement = True
        cmds[-1].end_of_statement = case["last"]  # the last command ends its statement anyway
        p = co.Pipeline(is_nested=case["nested"], cmds=cmds, history=case["history"], redirect_err_to_out=case["redirect"])
        before = view(p)
        text = ET.tostring(ser.serialize(p), encoding="unicode")
        same(view(p), before, "the pipeline after it was written")
        same(p.commands[-1].end_of_statement, case["last"], "end of the statement of the last command after writing")
    else:
        text = doc()

    def members(text):
        d = rc.plain(rc.read(text))
        if d["ms"].get("ExtraCmds") == ("Nil", None):
            d["ms"].pop("ExtraCmds")  # null or not there, both say that there are no further statements
        return d

    want = members(doc())
    same(members(text), want, "members of the pipeline")
    if case["how"] == "server" and minor < 3:
        return Info(True, ["not read"])  # a Command made without a version has the members of the latest protocol
    q = ser.deserialize(text, meta())
    flat = [c for s in sts for c in s]
    same(view(q), (case["nested"], case["history"], case["redirect"], [(c["cmd"], c["script"], c["local"], [(n, plainly(v)) for n, v in c["args"]], [c["merge"].get(m, 0) for m in merges]) for c in flat]), "the pipeline that was read")
    if minor >= 3:
        same(members(ET.tostring(ser.serialize(q), encoding="unicode")), want, "the pipeline that was read, written again")
    return Info(len(flat) > 1, ["%d statements" % len(sts), case["how"]])


SUBS = [
    Sub("pipelines", lambda: pipe_cases, check_pipelines, quick=300, thorough=6000),
    Sub("objects", lambda: cases, check_objects, quick=500, thorough=10000, qshards=3, tshards=6),
    Sub("enums", lambda: enum_cases, check_enums, quick=200, thorough=3000),
    Sub("arrays", lambda: array_cases, check_arrays, quick=400, thorough=6000),
]
