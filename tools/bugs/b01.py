S = "serializer.py"
RT = '''
from pypsrp.serializer import Serializer
import xml.etree.ElementTree as ET
import refclixml as rc
'''
BUGS = [
    dict(id="c01-overlap", prop="C01", needs="two escapes sharing nothing but an underscore: __x", breaks="only an underscore that is not preceded by another one is escaped",
         edits=[(S, 'string_value = re.sub("(?i)_(x)", "_x005F_\\\\1", string_value)', 'string_value = re.sub("(?i)(?<!_)_(x)", "_x005F_\\\\1", string_value)')],
         demo=RT + '''
s = "__x0041_"
e = Serializer().serialize(s)
same(rc.decode_string(e.text), s, "string read by a conforming reader")
'''),
    dict(id="c01-prop-name", prop="C01", needs="a ToString value with a control character", breaks="the ToString value of a complex object with properties sets is not escaped",
         edits=[(S, '''        if value.to_string is not None:
            ET.SubElement(obj, "ToString").text = self._serialize_string(value.to_string)

        for prop''', '''        if value.to_string is not None:
            ET.SubElement(obj, "ToString").text = value.to_string

        for prop''')],
         demo=RT + '''
from pypsrp.complex_objects import GenericComplexObject
o = GenericComplexObject()
o.to_string = "a_x0041_"
e = Serializer().serialize(o)
same(rc.decode_string(e.find("ToString").text), "a_x0041_", "ToString value")
'''),
    dict(id="c01-c1", prop="C01", needs="DEL or a C1 control character next to a plain one", breaks="a C1 control is written as an escape in lower case digits and with the high byte lost when it follows a CR",
         edits=[(S, '''            return "".join(["_x%s_" % i for i in hex_split])''', '''            return "".join(["_x%s_" % (i if i[:2] != "DB" else "D8" + i[2:]) for i in hex_split])''')],
         demo=RT + '''
s = "\\U0010fffd"
e = Serializer().serialize(s)
same(rc.decode_string(e.text), s, "string read by a conforming reader")
'''),
    dict(id="c02-list-meta", prop="C02", needs="a list of ints longer than int32", breaks="an integer beyond 32 bits in a list is written as a string",
         edits=[(S, '''        if value_type == int:
            return "I32"''', '''        if value_type == int:
            return "I32" if abs(value) < 2**31 else "S"''')],
         demo=RT + '''
v = [1, 2, 2147483648]
e = Serializer().serialize(v)
got = Serializer().deserialize(e)
same([type(x) for x in got], [int, int, int], "types")
'''),
    dict(id="c03-ref-later", prop="C03", needs="an object that appears twice in a graph with an other object in between", breaks="only objects among the last eight written are referenced, older ones are written again with a new id",
         edits=[(S, '''            for ref, value in self.obj.items():
                if value == obj:''', '''            for ref, value in list(self.obj.items())[-8:]:
                if value == obj:''')],
         demo=RT + '''
from pypsrp.complex_objects import GenericComplexObject
shared = GenericComplexObject()
shared.extended_properties["a"] = "x"
top = GenericComplexObject()
top.extended_properties["a"] = shared
for i in range(10):
    o = GenericComplexObject()
    o.extended_properties["v"] = i
    top.extended_properties["k%d" % i] = o
top.extended_properties["z"] = shared
e = Serializer().serialize(top)
doc = rc.read(ET.tostring(e, encoding="unicode"))
require(doc.prop("a") is doc.prop("z"), "a shared object is written twice")
'''),
    dict(id="c02-long", prop="C02", needs="a collection with more than 128 elements", breaks="a list, queue or stack that is read back loses the elements after the 128th",
         edits=[(S, """        for entry in entries:
            entry_value = self.deserialize(entry, metadata""", """        for entry in entries[:128]:
            entry_value = self.deserialize(entry, metadata""")],
         demo=RT + """
v = list(range(200))
same(Serializer().deserialize(ET.tostring(Serializer().serialize(v)).decode()), v, "list")
"""),
    dict(id="c03-tn-dup", prop="C03", needs="an object that declares a type name twice", breaks="type names that are repeated are dropped from the list that is written",
         edits=[(S, "            for type_name in types:\n", "            for type_name in dict.fromkeys(types):\n")],
         demo=RT + """
from pypsrp.complex_objects import GenericComplexObject
o = GenericComplexObject()
o.types = ["A", "System.Object", "B", "System.Object"]
e = Serializer().serialize(o)
same([t.text for t in e.find("TN")], ["A", "System.Object", "B", "System.Object"], "type names")
"""),
    dict(id="c04-ref-copy", prop="C04", needs="a document with a Ref", breaks="a reference gives a shallow copy of the object it names instead of the object",
         edits=[(S, """            "Ref": lambda d: self.obj[d.attrib["RefId"]],""", """            "Ref": lambda d: copy(self.obj[d.attrib["RefId"]]),""")],
         demo=RT + """
x = "<Obj RefId=\\"0\\"><MS><Obj N=\\"a\\" RefId=\\"1\\"><MS><I32 N=\\"x\\">1</I32></MS></Obj><Ref N=\\"b\\" RefId=\\"1\\" /></MS></Obj>"
got = Serializer().deserialize(x)
require(got.extended_properties["a"] is got.extended_properties["b"], "reference to an object")
"""),
]
