import importlib.util, os
_s = importlib.util.spec_from_file_location("b05", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b05.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
NET = _b.NET
W, SH, CL, S, P, N, E, CO, MS, PM = "wsman.py", "shell.py", "client.py", "serializer.py", "powershell.py", "negotiate.py", "encryption.py", "complex_objects.py", "messages.py", "_pool_manager.py"
BUGS = [
    dict(id="c19-exit", prop="C19", needs="a context left by an exception after the pool was disconnected in it", breaks="the pool stays on the server when its context is left by an error while it is disconnected",
         edits=[(P, '''        traceback: typing.Optional[types.TracebackType],
    ) -> None:
        self.close()

    def close(self) -> None:
        """
        Closes the RunspacePool''', '''        traceback: typing.Optional[types.TracebackType],
    ) -> None:
        if exc_type is None or self.state == RunspacePoolState.OPENED:
            self.close()

    def close(self) -> None:
        """
        Closes the RunspacePool''')],
         demo=NET + '''
srv = Server()
with wire.wire(srv):
    try:
        with RunspacePool(new_wsman()) as p:
            p.disconnect()
            raise ValueError("left")
    except ValueError:
        pass
    same(srv.reqs[-1].action, "Delete", "last request")
'''),
    dict(id="c22-nowhy", prop="C22", needs="a pipeline that fails without the server giving an error record", breaks="had_errors stays unset for a failed pipeline without any error record",
         edits=[(P, '''        if self.state == PSInvocationState.FAILED:
            self.had_errors = True''', '''        if self.state == PSInvocationState.FAILED and self.streams.error:
            self.had_errors = True''')],
         demo=NET + '''
srv = Server()
def run(sh, c, m):
    srv.finish(sh, c, state=5)
srv.run_pipeline = run
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.invoke()
        same(ps.had_errors, True, "had_errors")
'''),
    dict(id="c30-again", prop="C30", needs="a pipeline that is connected again and left once more while it runs", breaks="a pipeline that was connected to once is not offered again after another disconnect",
         edits=[(P, '''        return [s for s in self.pipelines.values() if s.state == PSInvocationState.DISCONNECTED]''',
                 '''        return [
            s for s in self.pipelines.values() if s.state == PSInvocationState.DISCONNECTED and not s._from_disconnect
        ]''')],
         demo=NET + '''
srv = Server()
srv.run_pipeline = lambda sh, c, m: None
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.begin_invoke()
        for _ in range(2):
            p.disconnect()
            p.connect()
            same(len(p.create_disconnected_power_shells()), 1, "pipelines that can be connected")
            ps.connect_async()
        srv.finish(list(srv.shells.values())[0], list(list(srv.shells.values())[0].commands.values())[0])
        ps.end_invoke()
'''),
    dict(id="c03-stack", prop="C03", needs="a stack that holds two or more objects", breaks="the objects on a stack share one reference id",
         edits=[(S, '''                self.serialize(value, metadata.list_value_meta, parent=stk, clear=False)
''', '''                self.serialize(value, metadata.list_value_meta, parent=stk, clear=True)
''')],
         demo=NET + '''
from pypsrp.complex_objects import ObjectMeta, StackMeta
x = Serializer().serialize([{"a": [1]}, {"b": [2]}], StackMeta())
ids = [o.get("RefId") for o in x.iter("Obj")]
same(len(set(ids)), len(ids), "reference ids %s" % ids)
'''),
    dict(id="c21-ownwait", prop="C21", needs="a poll with an operation timeout of its own that runs out on the server", breaks="the end of the wait of a poll with its own timeout is raised as a failure",
         edits=[(P, '''            if err.code == 2150858793:
                responses = []''', '''            if err.code == 2150858793 and timeout is None:
                responses = []''')],
         demo=NET + '''
srv = Server()
srv.run_pipeline = lambda sh, c, m: None
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        ps = PowerShell(p)
        ps.add_script("a")
        ps.begin_invoke()
        real = srv.do_Receive
        def receive(req):
            srv.do_Receive = real
            return soap.fault(req, 2150858793)
        srv.do_Receive = receive
        ps.poll_invoke(timeout=5)
        srv.finish(list(srv.shells.values())[0], list(list(srv.shells.values())[0].commands.values())[0], ("PIPELINE_OUTPUT", ("S", "late")))
        same(ps.end_invoke(), ["late"], "output")
'''),
    dict(id="c20-early", prop="C20", needs="a server that refuses a new lower limit", breaks="a refused limit is reported as the limit of the pool",
         edits=[(P, '''        while not isinstance(self.ci_table[ci], bool):
            self._receive()
        if not self.ci_table.pop(ci):
            raise InvalidPSRPOperation("Failed to set minimum runspaces")
        self._min_runspaces = min_runspaces''', '''        self._min_runspaces = min_runspaces
        while not isinstance(self.ci_table[ci], bool):
            self._receive()
        if not self.ci_table.pop(ci):
            raise InvalidPSRPOperation("Failed to set minimum runspaces")''')],
         demo=NET + '''
class T(Server):
    def on_SET_MIN_RUNSPACES(self, sh, c, m):
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("CI").value, False)))
with wire.wire(T()):
    with RunspacePool(new_wsman(), min_runspaces=1, max_runspaces=5) as p:
        try:
            p.min_runspaces = 3
        except InvalidPSRPOperation:
            pass
        same(p.min_runspaces, 1, "limit")
'''),
    dict(id="c32-twins", prop="C32", needs="two commands of the same name in one answer", breaks="of commands with the same name only one is handed out",
         edits=[(P, '''        return [self._serializer.deserialize(o._xml, meta) for o in output]''', '''        found = [self._serializer.deserialize(o._xml, meta) for o in output]
        return list({m.name: m for m in found}.values())''')],
         demo=NET + '''
srv = Server()
meta = lambda n: ("PIPELINE_OUTPUT", psrp.obj([("Name", ("S", n)), ("Namespace", ("S", "m")), ("HelpUri", ("S", "")), ("CommandType", ("enum", ["System.Management.Automation.CommandTypes", "System.Enum", "System.ValueType", "System.Object"], "Cmdlet", 8)), ("ResolvedCommandName", ("Nil", None)), ("OutputType", ("Nil", None)), ("Parameters", ("Nil", None))], types=["Selected.System.Management.Automation.FunctionInfo", "System.Management.Automation.PSCustomObject", "System.Object"]))
count = ("PIPELINE_OUTPUT", psrp.obj([("Count", ("I32", 3))], types=["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", "System.Management.Automation.PSCustomObject", "System.Object"]))
srv.on_GET_COMMAND_METADATA = lambda sh, c, m: srv.finish(sh, c, count, meta("Get-A"), meta("Get-B"), meta("Get-A"))
with wire.wire(srv):
    with RunspacePool(new_wsman()) as p:
        got = p.get_command_metadata("*")
        same([x.name for x in got], ["Get-A", "Get-B", "Get-A"], "commands")
'''),
    dict(id="c14-client", prop="C14", needs="a Client that is closed or left as a context", breaks="the connections of a Client stay open after it is closed",
         edits=[(CL, '''    def close(self) -> None:
        self.wsman.close()''', '''    def close(self) -> None:
        log.debug("Closing client")''')],
         demo='''
import loop
''' ),
]
BUGS = [b for b in BUGS if b["id"] != "c14-client"]
