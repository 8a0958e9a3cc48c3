"""Generated hosts of the client and the HostInfo a server must see for them."""
from hypothesis import strategies as st

import gens
import psrp
from pypsrp.complex_objects import Color, Coordinates, Size
from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface

n32 = st.one_of(st.integers(0, 300), st.integers(-(2**31), 2**31 - 1))
pair = st.tuples(n32, n32)
raw = st.fixed_dictionaries({"title": gens.text(12), "cursor_size": n32, "fg": st.integers(0, 15), "bg": st.integers(0, 15), "cursor": pair, "window": pair, "buffer": pair, "max_physical": pair, "max_window": pair, "size": pair})
# None: no host; "ui": a host without UI; "raw": a UI without raw UI; a dict: everything
host = gens.choose(st.none(), st.sampled_from(["ui", "raw"]), raw)
PRE = "System.Management.Automation.Host."


def make(s):
    if s is None:
        return None
    ui = None
    if s != "ui":
        r = None
        if s != "raw":
            r = PSHostRawUserInterface(s["title"], s["cursor_size"], Color(value=s["fg"]), Color(value=s["bg"]), Coordinates(x=s["cursor"][0], y=s["cursor"][1]), Coordinates(x=s["window"][0], y=s["window"][1]),
                                       Size(width=s["buffer"][0], height=s["buffer"][1]), Size(width=s["max_physical"][0], height=s["max_physical"][1]),
                                       Size(width=s["max_window"][0], height=s["max_window"][1]), Size(width=s["size"][0], height=s["size"][1]))
        ui = PSHostUserInterface(raw_ui=r)
    return PSHost(None, None, False, "h", None, ui, "1.0")


def spec(s):
    full = isinstance(s, dict)
    ms = []
    if full:
        def val(t, v):
            return psrp.obj([("T", ("S", t)), ("V", v)])

        def xy(p):
            return val(PRE + "Coordinates", psrp.obj([("x", ("I32", p[0])), ("y", ("I32", p[1]))]))

        def wh(p):
            return val(PRE + "Size", psrp.obj([("width", ("I32", p[0])), ("height", ("I32", p[1]))]))

        data = [val("System.ConsoleColor", ("I32", s["fg"])), val("System.ConsoleColor", ("I32", s["bg"])), xy(s["cursor"]), xy(s["window"]), val("System.Int32", ("I32", s["cursor_size"])), wh(s["buffer"]),
                wh(s["size"]), wh(s["max_window"]), wh(s["max_physical"]), val("System.String", ("S", s["title"]))]
        ms.append(("_hostDefaultData", psrp.obj([("data", ("dct", ["System.Collections.Hashtable", "System.Object"], [(("I32", k), v) for k, v in enumerate(data)]))])))
    ms += [("_isHostNull", ("B", s is None)), ("_isHostUINull", ("B", s is None or s == "ui")), ("_isHostRawUINull", ("B", not full)), ("_useRunspaceHost", ("B", s is None))]
    return psrp.obj(ms)
