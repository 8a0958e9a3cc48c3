"""C07: incoming fragments reassemble to exactly the messages the server sent."""
from hypothesis import strategies as st

import gens
import psrp
import refclixml as rc
import server
import wire
from core import Info, Sub, clip, fail, require, same
from pypsrp.exceptions import FragmentError
from pypsrp.messages import MessageType
from pypsrp.powershell import Fragmenter, PowerShell, RunspacePool
from pypsrp.serializer import Serializer

PROPERTY = "C07"
RULE = ("defragment: server messages of many sizes cut at generated points, the fragments of several objects interleaved and packed into blobs, optionally with one fragment lost, repeated or "
        "moved; a reference reassembler says after every blob what must have been delivered or that a fragment error is due. session: the same through real Receive answers of a pipeline. "
        "Non-trivial: some object has several fragments spread over blobs or interleaved with another object. long: blobs of 64 KiB and more, up to 140000 fragments, ids up to 2^64 that agree in their low or high bits.")
RP = "00000000-0000-0000-0000-0000000000aa"
PP = "00000000-0000-0000-0000-0000000000bb"

frag_sizes = st.lists(st.one_of(st.integers(1, 60), st.sampled_from([1, 2, 39, 40, 41, 43, 44, 1000, 32768])), min_size=1, max_size=5)
picks = st.lists(st.integers(0, 5), min_size=1, max_size=12)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    msgs = draw(st.lists(st.tuples(st.one_of(gens.text(12), st.integers(0, 400).map(lambda k: "ab\u20acd" * k)), frag_sizes, st.booleans()), min_size=n, max_size=n))
    return {"msgs": msgs, "oids": draw(st.lists(st.one_of(st.integers(1, 50), st.integers(1, 2**63)), min_size=n, max_size=n, unique=True)), "picks": draw(picks),
            "blobs": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6)), "empty": draw(gens.choose(st.just([]), st.lists(st.integers(0, 30), max_size=3))),
            "fault": draw(gens.choose(st.just(None), st.tuples(st.sampled_from(["drop", "dup", "swap", "skip"]), st.integers(0, 400))))}


class Ref:
    """Reference reassembler: fed one fragment at a time."""

    def __init__(self):
        self.open = {}

    def feed(self, f):
        want = len(self.open.get(f.oid, ()))
        if f.fid != want:
            return "error"
        self.open.setdefault(f.oid, []).append(f.data)
        if f.end:
            return b"".join(self.open.pop(f.oid))
        return None


def check(case):
    lists = []
    for (text, sizes, bom), oid in zip(case["msgs"], case["oids"]):
        body = rc.write(("S", text))
        lists.append(psrp.fragment(oid, psrp.pack("PIPELINE_OUTPUT", RP, PP, body, bom=bom), sizes, case["empty"]))
    seq = psrp.interleave(lists, case["picks"])
    labels = []
    if case["fault"]:
        kind, at = case["fault"]
        # only fragments of an object that has several: a lost last fragment just leaves it incomplete, see RULE
        idx = [i for i, f in enumerate(seq) if not (f.start and f.end)]
        if kind in ("dup", "skip"):
            idx = [i for i in idx if not seq[i].end]
        if idx:
            i = idx[at % len(idx)]
            if kind == "drop":
                del seq[i]
            elif kind == "dup":
                # repeat it somewhere before the end of its object
                last = max(j for j, f in enumerate(seq) if f.oid == seq[i].oid)
                j = i + 1 + (at // len(idx)) % (last - i)
                seq.insert(j, seq[i])
            elif kind == "swap":
                same_obj = [j for j, f in enumerate(seq) if f.oid == seq[i].oid and j != i]
                j = same_obj[at % len(same_obj)]
                seq[i], seq[j] = seq[j], seq[i]
            else:
                seq[i] = psrp.Frag(seq[i].oid, seq[i].fid + 1 + at % 3, seq[i].start, seq[i].end, seq[i].data)
            labels.append("fault " + kind)
    blobs, k, pos = [], 0, 0
    while pos < len(seq):
        n = case["blobs"][k % len(case["blobs"])]
        k += 1
        if n == 0 and k > 3 * len(seq) + 10:
            n = 1
        blobs.append(seq[pos : pos + n])
        pos += n
    fr = Fragmenter(32768, Serializer())
    ref = Ref()
    spread = False
    delivered = 0
    for b in blobs:
        want = [ref.feed(f) for f in b]
        data = b"".join(f.pack() for f in b)
        if "error" in want:
            try:
                got = fr.defragment(data)
            except FragmentError:
                return Info(True, labels + ["fragment error"])
            fail("a fragment that is out of sequence is accepted: %r gives %r", b, [clip(m.data.data) for m in got])
        got = fr.defragment(data)
        want = [psrp.unpack(w) for w in want if w is not None]
        require(len(got) == len(want), "%d messages come out of %r, %d are complete", len(got), b, len(want))
        for g, w in zip(got, want):
            same(g.message_type, w.mtype, "type of a message")
            same((str(g.rpid), str(g.pid)), (w.rpid, w.pid), "ids of a message")
            same(g.data.data, rc.read(w.xml).value, "content of a message")
            delivered += 1
        spread = spread or bool(ref.open)
    if not case["fault"]:
        require(delivered == len(lists), "%d messages delivered, %d were sent", delivered, len(lists))
    multi = any(len(l) > 1 for l in lists)
    return Info(multi and (spread or len(lists) > 1), labels + (["spread over blobs"] if spread else []) + ["delivered %d" % min(delivered, 3)])


# ---------------------------------------------------------------- numbers that grow
big = gens.choose(st.integers(60000, 140000), st.integers(0, 3).map(lambda k: 65536 - 40 - 7 + k), st.integers(200, 3000))
long_cases = st.fixed_dictionaries({"sizes": st.lists(big, min_size=1, max_size=3), "frag": gens.choose(st.sampled_from([65535, 65536, 65537, 70000, 200000]), st.integers(1, 4), st.integers(5, 5000)),
                                    "oid": st.sampled_from([1, 250, 65535, 2**31 - 1, 2**32 - 1, 2**32, 2**63 - 5]), "step": st.sampled_from([1, 256, 65536, 2**31, 2**32, 2**40]), "blob": st.integers(1, 3000)})


def check_long(case):
    """Blob lengths, object ids and fragment ids beyond any width a narrower field could hold; objects whose ids agree in their low or high bits are interleaved."""
    lists = []
    for i, n in enumerate(case["sizes"]):
        body = rc.write(("S", ("%d." % i * n)[:n]))
        lists.append(psrp.fragment((case["oid"] + i * case["step"]) % 2**64 or 7, psrp.pack("PIPELINE_OUTPUT", RP, PP, body, bom=False), [case["frag"]]))
    seq = psrp.interleave(lists, [0, 1, 2])
    ref, fr = Ref(), Fragmenter(32768, Serializer())
    pos = 0
    while pos < len(seq):
        part = seq[pos : pos + case["blob"]]
        pos += case["blob"]
        want = [psrp.unpack(w) for w in [ref.feed(f) for f in part] if w is not None]
        got = fr.defragment(b"".join(f.pack() for f in part))
        require(len(got) == len(want), "%d messages come out, %d are complete", len(got), len(want))
        for g, w in zip(got, want):
            same(g.data.data, rc.read(w.xml).value, "content of a message")
    most = max(len(l) for l in lists)
    return Info(True, [">2^16 fragments" if most > 65536 else ">2^8 fragments" if most > 256 else "few", "large blob" if max(len(f.data) for f in seq) > 65535 else "small blobs"])


# ---------------------------------------------------------------- through Receive
@st.composite
def session_cases(draw):
    return {"texts": draw(st.lists(st.one_of(gens.text(10), st.integers(0, 3000).map(lambda k: "%d|" % k * (k // 4))), max_size=8)), "pool_events": draw(st.integers(0, 3)),
            "plan": {"frag_sizes": draw(frag_sizes), "per_response": draw(st.lists(st.integers(1, 6), min_size=1, max_size=4)), "per_stream": draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)),
                     "hold": draw(st.lists(st.integers(0, 2), min_size=1, max_size=4)), "bom": draw(st.booleans())},
            "order": draw(picks)}


def check_session(case):
    if min(case["plan"]["frag_sizes"]) < 20:
        # keep the number of requests in bounds: tiny fragments travel many to an answer
        case["plan"]["per_response"] = [n * 200 for n in case["plan"]["per_response"]]
    texts = case["texts"]

    class S(server.Server):
        def run_pipeline(self, sh, c, m):
            ev = [("USER_EVENT", psrp.user_event(i, "e%d" % i)) for i in range(case["pool_events"])]
            # the fragments of all records are interleaved; records still complete in some order the reference knows
            lists = [self.sh_frags(sh, t, s, c if t != "USER_EVENT" else None) for t, s in [("PIPELINE_OUTPUT", ("S", t)) for t in texts] + ev]
            seq = psrp.interleave(lists, case["order"])
            ref = Ref()
            self.want, self.events = [], []
            for f in seq:
                r = ref.feed(f)
                if r is not None:
                    n = rc.read(psrp.unpack(r).xml)
                    if psrp.unpack(r).name == "PIPELINE_OUTPUT":
                        self.want.append(n.value)
                    else:
                        self.events.append(n.prop("PSEventArgs.EventIdentifier").value)
            c.out.extend(f.pack() for f in seq)
            self.finish(sh, c)

        def sh_frags(self, sh, t, s, c):
            return sh.sender.frags(t, s, c.id if c else None)

    srv = S(case["plan"])
    with wire.wire(srv, limit=6000):
        pool = RunspacePool(server.new_wsman())
        pool.open()
        ps = PowerShell(pool)
        ps.add_script("x")
        out = ps.invoke()
        ps.close()
        same(list(out), srv.want, "the output")
        same([e.event_id for e in pool.user_events], srv.events, "the events")
        pool.close()
    nontriv = len(texts) + case["pool_events"] > 1
    return Info(nontriv, ["interleaved" if srv.want != texts else "in order"])


SUBS = [
    Sub("defragment", cases, check, quick=600, thorough=20000, qshards=3, tshards=8),
    Sub("long", lambda: long_cases, check_long, quick=25, thorough=500, qshards=2, tshards=4),
    Sub("session", session_cases, check_session, quick=100, thorough=2000, qshards=4, tshards=8),
]
