import importlib.util, os
_s = importlib.util.spec_from_file_location("b05", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b05.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
NET = _b.NET
W, SH, CL, S, P, N, E, CO, MS, PM = "wsman.py", "shell.py", "client.py", "serializer.py", "powershell.py", "negotiate.py", "encryption.py", "complex_objects.py", "messages.py", "_pool_manager.py"
BUGS = [
    dict(id="c21-many", prop="C21", needs="more than 64 output objects of one pipeline", breaks="older output objects are dropped once a pipeline has more than 64",
         edits=[(P, '''                self.output.append(response[1].data.data)''', '''                self.output[:] = (self.output + [response[1].data.data])[-64:]''')],
         demo=NET + '''
srv = out(Server(), *[("PIPELINE_OUTPUT", ("I32", i)) for i in range(90)])
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        same(ps.invoke(), list(range(90)), "output")
'''),
    dict(id="c09-few", prop="C09", needs="a request with more than eight options", breaks="the options behind the eighth are not sent",
         edits=[(W, "        for key, value, attributes in self.values:\n", "        for key, value, attributes in self.values[:8]:\n")],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    o = OptionSet()
    for i in range(12):
        o.add_option("o%d" % i, str(i))
    sh = WinRS(new_wsman())
    sh.open(base_options=o)
    got = [n for n, _, _ in srv.reqs[-1].options if n.startswith("o")]
    same(got, ["o%d" % i for i in range(12)], "options")
'''),
    dict(id="c06-wide", prop="C06", needs="a message of more than 255 fragments", breaks="the fragment id is reduced to one byte",
         edits=[(P, '''        data += struct.pack(">Q", self.fragment_id)
        data += struct.pack("B"''', '''        data += struct.pack(">Q", self.fragment_id & 0xFF)
        data += struct.pack("B"''')],
         demo=NET + '''
f = Fragmenter(100, Serializer())
pieces = f.fragment(PipelineInput(data="x" * 30000), str(uuid.uuid4()))
ids = [int.from_bytes(x[8:16], "big") for x in pieces]
same(ids, list(range(len(pieces))), "fragment ids")
'''),
    dict(id="c01-memo", prop="C01", needs="the same text with _X in it written twice by one serializer", breaks="a remembered plain string is written without its escape",
         edits=[(S, '''        if value is None:
            return None

        def rplcr''', '''        if value is None or value in self._plain:
            return value

        def rplcr'''), (S, '''        string_value = re.sub(self._serial_str, rplcr, string_value)

        return''', '''        string_value = re.sub(self._serial_str, rplcr, string_value)
        if "_x" not in value and not self._serial_str.search(value):
            self._plain.add(value)

        return'''), (S, '''        self.cipher: typing.Any = None
''', '''        self.cipher: typing.Any = None
        self._plain: typing.Set[str] = set()
''')],
         demo=NET + '''
s = Serializer()
same(s.serialize("_X0041_").text, "_x005F_X0041_", "first")
same(s.serialize("_X0041_").text, "_x005F_X0041_", "second")
'''),
    dict(id="c13-stale", prop="C13", needs="a sealed request that is authenticated and sent again after a lost answer", breaks="the context of the first authentication is kept for the requests after another one",
         edits=[(N, "        self.contexts[host] = context\n", "        self.contexts.setdefault(host, context)\n")],
         demo=NET + '''
from pypsrp.negotiate import HTTPNegotiateAuth
import spnego
a = HTTPNegotiateAuth("u", "p", wrap_required=True)
made = []
class Ctx:
    complete = True
    def step(self, t=None):
        return None
def client(*x, **k):
    made.append(Ctx())
    return made[-1]
spnego.client = client
import pypsrp.negotiate as n
n.spnego.client = client
class R:
    url = "http://srv:5985/wsman"
    raw = None
    headers = {"www-authenticate": "Negotiate"}
for i in range(2):
    try:
        a.handle_401(R(), _pypsrp_auth_provider="Negotiate")
    except Exception:
        raise
same(a.contexts["srv"] is made[-1], True, "context in use")
'''),
    dict(id="c02-shared", prop="C02", needs="one metadata object for the keys and the values of a dictionary", breaks="the name of the value overwrites the one of the key",
         edits=[(S, '''            key_meta = copy(metadata.dict_key_meta)
            value_meta = copy(metadata.dict_value_meta)
''', '''            key_meta = metadata.dict_key_meta
            value_meta = metadata.dict_value_meta
''')],
         demo=NET + '''
m = ObjectMeta("I64")
el = Serializer().serialize({1: 2}, DictionaryMeta(dict_key_meta=m, dict_value_meta=m))
same([x.get("N") for x in el.find("DCT/En")], ["Key", "Value"], "names")
'''),
    dict(id="c17-wait", prop="C17", needs="a poll that times out before the server reported anything", breaks="a process that was not reported as running counts as running after a timeout",
         edits=[(SH, '''            if exc.code == 2150858793:
                pass
            else:''', '''            if exc.code == 2150858793:
                self.state = CommandState.RUNNING
            else:''')],
         demo=NET + '''
class T(Server):
    def do_Receive(self, req):
        return soap.fault(req, 2150858793)
    def on_process(self, c):
        pass
srv = T()
from pypsrp.shell import CommandState
with wire.wire(srv):
    sh = WinRS(new_wsman())
    sh.open()
    p = Process(sh, "a")
    p.begin_invoke()
    p.poll_invoke()
    same(p.state, CommandState.PENDING, "state")
'''),
    dict(id="c26-tenth", prop="C26", needs="a file of eight or more pieces", breaks="the hash of a larger file is that of its first pieces",
         edits=[(CL, '''                    sha1.update(data)
                    b64_data''', '''                    if offset <= 8 * buffer_size:
                        sha1.update(data)
                    b64_data''')],
         demo=NET + '''
import hashlib
class T(Server):
    def run_pipeline(self, sh, c, m):
        pass
    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", ("S", "C:\\\\f")))
srv = T()
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "f")
    data = os.urandom(60000)
    with open(f, "wb") as fh:
        fh.write(data)
    with wire.wire(srv):
        cl = Client("srv", username="u", password="p", auth="basic", ssl=True, max_envelope_size=8192)
        srv.protocol = "2.1"
        cl.copy(f, "C:\\\\f")
    got = [base64.b64decode(m.node().value) for _, _, m in srv.msgs if m.name == "PIPELINE_INPUT"]
    same(got[-1].decode(), hashlib.sha1(data).hexdigest(), "hash sent")
finally:
    shutil.rmtree(d)
'''),
]
