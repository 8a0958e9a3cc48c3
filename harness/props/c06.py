"""C06: outgoing messages are fragmented losslessly within the size limit."""
from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.messages import EndOfPipelineInput, PipelineInput
from pypsrp.powershell import Fragmenter, PowerShell, RunspacePool
from pypsrp.serializer import Serializer

PROPERTY = "C06"
RULE = ("fragmenter: sequences of messages whose packed sizes sit on and around multiples of the fragment size, single and batched; wire: whole sessions "
        "(open with arguments of any size, pipelines, input, metadata, limits) whose every fragment is reassembled by a strict server. Non-trivial: a message "
        "of more than one fragment or two messages sharing one blob. long: up to 70000 messages over one fragmenter and messages of up to 66000 fragments, so that every id outgrows any narrower field.")
RP = "00000000-0000-0000-0000-0000000000aa"
PP = "00000000-0000-0000-0000-0000000000bb"
OVER = 40 + 7  # header and <S></S>


def sizes(m):
    """Packed sizes of messages for fragments with m bytes of data: on and around multiples of m and of what is left of a blob."""
    near = st.tuples(st.integers(0, 6), st.sampled_from([0, 0, 1, -1, 2, -2, 20, 21, 22, -20, -21, -22, -42, -43, -41]), st.booleans()).map(
        lambda t: t[0] * m + t[1] + (0 if t[2] else 21))
    return st.one_of(near, st.integers(0, 5 * m + 5), st.just(0)).map(lambda n: max(0, n))


@st.composite
def frag_cases(draw):
    m = draw(st.one_of(st.sampled_from([1, 2, 3, 20, 21, 22, 23, 40, 41, 61, 62, 63, 64, 100]), st.integers(1, 300), st.integers(300, 40000)))
    if m < 10:
        total = st.integers(OVER, OVER + 60)
    else:
        total = sizes(m)
    ops = draw(st.lists(st.tuples(st.sampled_from(["one", "many"]), st.lists(total, min_size=1, max_size=5)), min_size=1, max_size=4))
    # 0 stands for an end-of-input message (header only)
    return {"m": m, "ops": ops, "wide": draw(st.booleans())}


def message(total, k, wide):
    if total < OVER:
        return EndOfPipelineInput(), None
    n = total - OVER
    if wide and n >= 3:
        v = "\u20ac" * (n // 3) + "x" * (n % 3)
    else:
        pat = "%d." % k
        v = (pat * (n // len(pat) + 1))[:n]
    return PipelineInput(data=v), v


def check_frag(case):
    m = case["m"]
    limit = m + psrp.HDR
    fr = Fragmenter(limit, Serializer())
    asm = psrp.Assembler()
    want, blobs, shared = [], [], False
    k = 0
    for kind, totals in case["ops"]:
        msgs = []
        for t in totals:
            k += 1
            o, v = message(t, k, case["wide"])
            msgs.append(o)
            want.append(v)
        if kind == "one":
            out = []
            for o in msgs:
                bl = fr.fragment(o, RP, PP)
                for b in bl:
                    require(len(psrp.split_blob(b)) == 1, "fragment() packed more than one fragment in a blob")
                out += bl
        else:
            out = fr.fragment_multiple(msgs, RP, PP)
        for b in out:
            require(isinstance(b, bytes), "a blob is a %s", type(b).__name__)
            require(len(b) <= limit, "a blob of %d bytes exceeds the limit of %d", len(b), limit)
            require(len(b) > 0, "an empty blob")
        blobs += out
    got = []
    for b in blobs:
        raw = asm.feed(b)
        oids = {f.oid for f in psrp.split_blob(b)}
        shared = shared or len(oids) > 1
        got += raw
    require(not asm.pending, "object %s is never completed", asm.cur)
    require(len(got) == len(want), "%d messages arrive, %d were sent", len(got), len(want))
    for raw, v in zip(got, want):
        msg = psrp.unpack(raw)
        require(msg.dest == psrp.SERVER and msg.rpid == RP and msg.pid == PP, "header of a message: %r", msg)
        if v is None:
            require(msg.name == "END_OF_PIPELINE_INPUT" and msg.xml == "", "end of input arrives as %r", msg)
        else:
            require(msg.name == "PIPELINE_INPUT", "input arrives as %r", msg)
            same(msg.node().value, v, "the input after reassembly")
    multi = len(blobs) > 0 and asm.seen > len(want)
    return Info(multi or shared, (["multi"] if multi else []) + (["shared blob"] if shared else []) + ["m<22" if m < 22 else "m>=22"])


# ---------------------------------------------------------------- numbers that grow
long_cases = gens.choose(
    st.fixed_dictionaries({"messages": gens.choose(st.integers(1, 600), st.integers(4000, 9000), st.integers(32000, 70000)), "batch": st.integers(1, 40), "m": st.sampled_from([40, 61, 200, 32768])}),
    st.fixed_dictionaries({"fragments": gens.choose(st.integers(2, 600), st.integers(4000, 9000), st.integers(65000, 66500)), "m": st.sampled_from([1, 2, 3])}))


def check_long(case):
    """Ids far beyond any width a narrower field could hold."""
    m = case["m"]
    fr = Fragmenter(m + psrp.HDR, Serializer())
    asm = psrp.Assembler()
    if "fragments" in case:
        v = ("%x." % case["m"] * case["fragments"] * m)[: max(0, case["fragments"] * m - OVER)]
        got = []
        n = 0
        for b in fr.fragment(PipelineInput(data=v), RP, PP):
            n += 1
            require(len(b) <= m + psrp.HDR, "a blob of %d bytes exceeds the limit of %d", len(b), m + psrp.HDR)
            got += asm.feed(b)
        require(len(got) == 1 and not asm.pending, "%d messages arrive, one was sent in %d fragments", len(got), n)
        same(psrp.unpack(got[0]).node().value, v, "the input after reassembly")
        return Info(n > 255, [">2^16 fragments" if n > 65536 else ">2^8 fragments" if n > 256 else "few"])
    left, count = case["messages"], 0
    while left:
        k = min(left, case["batch"])
        left -= k
        if k == 1:
            blobs = fr.fragment(EndOfPipelineInput(), RP, PP)
        else:
            blobs = fr.fragment_multiple([EndOfPipelineInput() for _ in range(k)], RP, PP)
        for b in blobs:
            count += len(asm.feed(b))
    require(count == case["messages"] and not asm.pending, "%d messages arrive, %d were sent", count, case["messages"])
    return Info(count > 255, [">2^15 messages" if count > 32768 else ">2^12 messages" if count > 4096 else "few"])


# ---------------------------------------------------------------- whole sessions
@st.composite
def wire_cases(draw):
    env = draw(st.sampled_from([32768, 32768, 33000, 51200, 153600, 153600, 512000]))
    pay = (512000 if env == 153600 else env) * 3 // 4 - 1500
    big = gens.choose(st.integers(0, 30), st.integers(0, 60000), st.tuples(st.integers(1, 2), st.integers(-1500, 300)).map(lambda t: max(0, t[0] * pay + t[1])))
    ops = draw(st.lists(gens.choose(
        st.tuples(st.just("run"), big, st.lists(big, max_size=4), st.booleans()),
        st.tuples(st.just("min"), st.integers(1, 9)), st.tuples(st.just("max"), st.integers(1, 9)), st.just(("avail",)), st.just(("meta",)), st.just(("reset",))), max_size=5))
    return {"env": env, "args": draw(st.one_of(st.just(None), big)), "ops": ops, "proto": draw(st.sampled_from(["2.1", "2.2", "2.3"]))}


class Sess(server.Server):
    def on_SET_MIN_RUNSPACES(self, sh, c, m):
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("CI").value, True)))

    on_SET_MAX_RUNSPACES = on_SET_MIN_RUNSPACES

    def on_GET_AVAILABLE_RUNSPACES(self, sh, c, m):
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, 3)))

    def on_RESET_RUNSPACE_STATE(self, sh, c, m):
        self.push(sh, None, ("RUNSPACE_AVAILABILITY", psrp.availability(m.node().prop("ci").value, True)))

    def on_GET_COMMAND_METADATA(self, sh, c, m):
        self.finish(sh, c, ("PIPELINE_OUTPUT", psrp.obj([("Count", ("I32", 0))])))

    def run_pipeline(self, sh, c, m):
        if m.node().prop("NoInput").value:
            self.finish(sh, c)

    def on_END_OF_PIPELINE_INPUT(self, sh, c, m):
        self.finish(sh, c)

    def psrp_in(self, sh, c, data, stream="stdin"):
        self.blobs.append(len(data))
        limit = self.wsman.max_payload_size
        require(len(data) <= limit, "a blob of %d bytes is sent, the limit in force is %d", len(data), limit)
        super().psrp_in(sh, c, data, stream)


def check_wire(case):
    srv = Sess(proto=case["proto"])
    srv.blobs = []
    want = []
    with wire.wire(srv):
        w = srv.wsman = server.new_wsman(max_envelope_size=case["env"])
        pool = RunspacePool(w)
        pool.open({"a": "A" * case["args"]} if case["args"] is not None else None)
        want += ["SESSION_CAPABILITY", "INIT_RUNSPACEPOOL"]
        for op in case["ops"]:
            if op[0] == "run":
                ps = PowerShell(pool)
                ps.add_script("S" * op[1])
                want.append("CREATE_PIPELINE")
                if op[2]:
                    data = [chr(97 + i) * n for i, n in enumerate(op[2])]
                    if op[3]:
                        ps.begin_invoke(input=(d for d in data))
                    else:
                        ps.begin_invoke(input=list(data))
                    want += ["PIPELINE_INPUT"] * len(data) + ["END_OF_PIPELINE_INPUT"]
                else:
                    ps.begin_invoke()
                ps.end_invoke()
                ps.close()
            elif op[0] == "min":
                if pool.min_runspaces != op[1]:
                    want.append("SET_MIN_RUNSPACES")
                pool.min_runspaces = op[1]
            elif op[0] == "max":
                if pool.max_runspaces != op[1]:
                    want.append("SET_MAX_RUNSPACES")
                pool.max_runspaces = op[1]
            elif op[0] == "avail":
                want.append("GET_AVAILABLE_RUNSPACES")
                pool.get_available_runspaces()
            elif op[0] == "reset" and case["proto"] in ("2.3", "2.10"):
                want.append("RESET_RUNSPACE_STATE")
                pool.reset_runspace_state()
            elif op[0] == "meta":
                want.append("GET_COMMAND_METADATA")
                pool.get_command_metadata("x")
        pool.close()
    sh = list(srv.shells.values())[0]
    require(not sh.asm.pending, "object %s is never completed on the wire", sh.asm.cur)
    same([m.name for _, _, m in srv.msgs], want, "the messages that arrive")
    # content of the large ones
    k = 0
    runs = [op for op in case["ops"] if op[0] == "run"]
    for _, c, m in srv.msgs:
        if m.name == "INIT_RUNSPACEPOOL":
            a = m.node().prop("ApplicationArguments")
            if case["args"] is not None:
                same([(x.value, y.value) for x, y in a.items], [("a", "A" * case["args"])], "application arguments")
        elif m.name == "CREATE_PIPELINE":
            cmd = m.node().prop("PowerShell").prop("Cmds").items[0].prop("Cmd").value
            same(cmd, "S" * runs[k][1], "the script of a pipeline")
            ins = [x.node().value for x in c.msgs if x.name == "PIPELINE_INPUT"]
            same(ins, [chr(97 + i) * n for i, n in enumerate(runs[k][2])], "the input of a pipeline")
            k += 1
    multi = sh.asm.seen > len(want)
    return Info(multi, ["multi"] if multi else [])


SUBS = [
    Sub("fragmenter", frag_cases, check_frag, quick=900, thorough=20000, qshards=3, tshards=8),
    Sub("long", lambda: long_cases, check_long, quick=12, thorough=400, qshards=2, tshards=4),
    Sub("session", wire_cases, check_wire, quick=150, thorough=2500, qshards=5, tshards=8),
]
